From 5dce29710ed089b161626bf6787813796d932be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 01/44] fix: give each received datagram its own sender Host

NetUDPClient reused one mutable Host for every datagram, and circuits keep a
reference to it, so with two or more hosts acks were sent to whichever host
happened to send last.
---
 pyogp/lib/base/network/net.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/network/net.py b/pyogp/lib/base/network/net.py
index 3a4274b..148eca2 100644
--- a/pyogp/lib/base/network/net.py
+++ b/pyogp/lib/base/network/net.py
@@ -49,8 +49,9 @@ class NetUDPClient(object):
         except:
             return '', 0
         #print self.sender
-        self.sender.ip = addr[0]
-        self.sender.port = addr[1]
+        # a new Host for each packet: circuits keep a reference to the one they
+        # were created for
+        self.sender = Host((addr[0], addr[1]))
         return data, len(data)
 
     def start_udp_connection(self):
-- 
2.43.0


From 12c6fe9a87100ac6fd527d3a85b6919ab7cf7d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 02/44] fix: append the acks that an outgoing packet's ACK flag
 announces

prepare_packet collected acks and set LL_ACK_FLAG but the serializer never
wrote them, so the receiver took body bytes for acks. Acks left on a reused
Message object are no longer sent to another host either.
---
 pyogp/lib/base/message/circuit.py       |  7 ++++++-
 pyogp/lib/base/message/udpserializer.py | 10 +++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message/circuit.py b/pyogp/lib/base/message/circuit.py
index 8d336f0..084187a 100644
--- a/pyogp/lib/base/message/circuit.py
+++ b/pyogp/lib/base/message/circuit.py
@@ -72,6 +72,10 @@ class Circuit(object):
 
         packet.packet_id = self.next_packet_id()
 
+        #the message may have been sent before, maybe to another host
+        packet.acks = []
+        packet.num_acks = 0
+
         #if we have acks that we can add on, add them
         ack_count = len(self.acks)
         if ack_count > 0 and packet.name != "PacketAck":
@@ -79,7 +83,8 @@ class Circuit(object):
 
             #also, sends as many acks as we can onto the end of the packet
             #acks are just the packet_id that we are acking
-            for packet_id in self.acks:
+            #(their count is sent in one byte)
+            for packet_id in self.acks[:255]:
                 packet.add_ack(packet_id)
 
         if flag == PackFlags.LL_RELIABLE_FLAG:
diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 452bdfe..60bbf4c 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -21,7 +21,7 @@ import struct
 from logging import getLogger
 
 # pygop
-from msgtypes import MsgType, MsgBlockType, EndianType
+from msgtypes import MsgType, MsgBlockType, EndianType, PackFlags
 from data_packer import DataPacker
 from template_dict import TemplateDictionary
 from pyogp.lib.base import exc
@@ -102,6 +102,14 @@ class UDPMessageSerializer(object):
             # testing a hack to let RegionHandshakeReply get parsed
             msg_buffer += struct.pack(">I", 0)
 
+        #acks are appended at the end of the packet, followed by their count
+        if self.context.send_flags & PackFlags.LL_ACK_FLAG:
+            for ack_packet_id in self.context.acks:
+                msg_buffer += self.packer.pack_data(ack_packet_id, \
+                                                    MsgType.MVT_U32, \
+                                                    endian_type=EndianType.BIG)
+            msg_buffer += self.packer.pack_data(len(self.context.acks), MsgType.MVT_U8)
+
         self.message_buffer = msg_buffer
 
         return msg_buffer
-- 
2.43.0


From de94463444296268ef009d6555f3eb6ec480f077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 03/44] fix: read appended acks as big endian packet ids

---
 pyogp/lib/base/message/udpdeserializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 5ad6c4f..e06c530 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -240,7 +240,8 @@ class UDPMessageDeserializer(object):
             ack_pos = 0
             while acks > 0:
                 ack_packet_id = self.unpacker.unpack_data(ack_data, MsgType.MVT_U32, \
-                                                          start_index=ack_pos)
+                                                          start_index=ack_pos, \
+                                                          endian_type=EndianType.BIG)
                 ack_pos += sizeof(MsgType.MVT_U32)
                 packet.add_ack(ack_packet_id)
                 acks -= 1
-- 
2.43.0


From eafd623494c54358255dd2c763a484b177c5ed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 04/44] fix: a received PacketAck acknowledges the packets it
 lists

Only appended acks were looked at, and a PacketAck nobody subscribed to was
not even parsed, so reliable packets stayed unacked forever.
---
 pyogp/lib/base/message/circuit.py         | 5 +++++
 pyogp/lib/base/message/udpdeserializer.py | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/circuit.py b/pyogp/lib/base/message/circuit.py
index 084187a..cf06ebd 100644
--- a/pyogp/lib/base/message/circuit.py
+++ b/pyogp/lib/base/message/circuit.py
@@ -95,6 +95,11 @@ class Circuit(object):
         for ack_packet_id in packet.acks:
             self.ack_reliable_packet(ack_packet_id)
 
+        #acks also come in messages of their own
+        if packet.name == "PacketAck":
+            for block in packet.blocks.get("Packets", []):
+                self.ack_reliable_packet(block["ID"])
+
         if packet.reliable == True:
             self.collect_ack(packet.packet_id)
 
diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index e06c530..b6efe1e 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -121,7 +121,8 @@ class UDPMessageDeserializer(object):
                 return None
 
             # if the packet is being handled, or if have have disabled deferred packet parsing, handle it!
-            if self.message_handler.is_message_handled(self.current_template.name) or not self.settings.ENABLE_DEFERRED_PACKET_PARSING:
+            # the circuit needs to see every PacketAck
+            if self.message_handler.is_message_handled(self.current_template.name) or not self.settings.ENABLE_DEFERRED_PACKET_PARSING or self.current_template.name == 'PacketAck':
 
                 try:
                     return self.__decode_data(msg_buff)
-- 
2.43.0


From fb8ecdfa8ee7929b6aa1d1534e9017de335e53e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 05/44] fix: report truncated datagrams as
 MessageDeserializationError

Short datagrams, ack counts larger than the datagram and cut off message
numbers ended in IndexError or struct.error.
---
 pyogp/lib/base/message/udpdeserializer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index b6efe1e..258f2e2 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -77,10 +77,15 @@ class UDPMessageDeserializer(object):
         msg_buff = self.context
         msg_len = len(msg_buff)
 
+        if msg_len < PacketLayout.MINIMUM_VALID_PACKET_SIZE:
+            raise exc.MessageDeserializationError("packet length", "packet is too short")
+
         if ord(msg_buff[0]) & PackFlags.LL_ACK_FLAG:
             num_acks = ord(msg_buff[msg_len-1])
             #logger.debug("Decoding packet with acks: %d", num_acks)
             ack_length = 1 + sizeof(MsgType.MVT_U32) * num_acks
+            if msg_len - ack_length < PacketLayout.MINIMUM_VALID_PACKET_SIZE:
+                raise exc.MessageDeserializationError("packet length", "packet is too short for its acks")
             temp_acks = msg_buff[-ack_length:]
             msg_buff = msg_buff[:-ack_length]
 
@@ -155,7 +160,10 @@ class UDPMessageDeserializer(object):
             raise exc.MessageDeserializationError("packet length", "template mismatch")
 
         header = message_buffer[PacketLayout.PACKET_ID_LENGTH:12]
-        self.current_template = self.__decode_header(header)
+        try:
+            self.current_template = self.__decode_header(header)
+        except (IndexError, struct.error), error:
+            raise exc.MessageDeserializationError("message number", error)
         if self.current_template != None:
             return True
 
-- 
2.43.0


From c005817c23ca50f792a418d482a7439ffe5311ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 06/44] fix: look for the message number after the extra header

The offset byte was honoured when decoding the body but not when looking up
the template, so packets with extra header data decoded as another message.
---
 pyogp/lib/base/message/udpdeserializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 258f2e2..d9603cf 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -159,7 +159,9 @@ class UDPMessageDeserializer(object):
         if PacketLayout.PACKET_ID_LENGTH >= len(message_buffer):
             raise exc.MessageDeserializationError("packet length", "template mismatch")
 
-        header = message_buffer[PacketLayout.PACKET_ID_LENGTH:12]
+        # extra header data may come before the message number
+        start = PacketLayout.PACKET_ID_LENGTH + ord(message_buffer[PacketLayout.PHL_OFFSET])
+        header = message_buffer[start:start + 6]
         try:
             self.current_template = self.__decode_header(header)
         except (IndexError, struct.error), error:
-- 
2.43.0


From 7239b0019ed3402c6c9e33081ab298587654718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 07/44] fix: do not read appended acks as body data

A body cut short in front of appended acks was completed with ack bytes and
delivered.
---
 pyogp/lib/base/message/udpdeserializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index d9603cf..adff07e 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -257,6 +257,9 @@ class UDPMessageDeserializer(object):
                 packet.add_ack(ack_packet_id)
                 acks -= 1
 
+            #the acks aren't part of the body
+            data = data[:msg_size-ack_start]
+
         #RELIABLE - means the message wants to be acked by us
         if packet.send_flags & PackFlags.LL_RELIABLE_FLAG:
             packet.reliable = True
-- 
2.43.0


From 3e526fb03a4077c305222483a910c5ca1a6743af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 08/44] fix: skipped packets are acked only if reliable, and
 their acks count

A packet whose parsing was skipped was acked even if it had not been sent
reliably, and the acks appended to it were ignored.
---
 pyogp/lib/base/message/udpdeserializer.py | 8 ++++++++
 pyogp/lib/base/message/udpdispatcher.py   | 7 ++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index adff07e..522e76f 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -146,6 +146,14 @@ class UDPMessageDeserializer(object):
 
         return None
 
+    def decode_acks(self, msg_buff):
+        """ Returns the packet ids acked at the end of a packet """
+        if not ord(msg_buff[0]) & PackFlags.LL_ACK_FLAG:
+            return []
+
+        num_acks = ord(msg_buff[-1])
+        return list(struct.unpack('>%dI' % num_acks, msg_buff[-1 - 4 * num_acks:-1]))
+
     def __validate_message(self, message_buffer):
         """ Determines if the message follows a given template. """
         if self.__decode_template(message_buffer) == True:
diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index bb4325d..f2776e1 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -141,8 +141,13 @@ class UDPDispatcher(object):
                 send_flags = ord(msg_buf[0])
                 packet_id = self.data_unpacker.unpack_data(msg_buf, MsgType.MVT_U32, 1, endian_type=EndianType.BIG)
 
+                # the acks appended to it count as well
+                for ack_packet_id in self.udp_deserializer.decode_acks(msg_buf):
+                    circuit.ack_reliable_packet(ack_packet_id)
+
                 # queue the ack up
-                circuit.collect_ack(packet_id)
+                if send_flags & PackFlags.LL_RELIABLE_FLAG:
+                    circuit.collect_ack(packet_id)
 
                 return None
 
-- 
2.43.0


From 043ecb24a7a47fcc8697d014f84a33ff32710e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 09/44] fix: keep the acks that could not be sent

process_acks cleared a circuit's acks even if sending the PacketAck failed,
and those that arrived while it was being sent.
---
 pyogp/lib/base/message/udpdispatcher.py | 33 +++++++++----------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index f2776e1..589278d 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -291,33 +291,24 @@ class UDPDispatcher(object):
         # ToDo: review this, not sure it's right?
         for circuit in self.circuit_manager.circuit_map.values():
 
-            acks_this_packet = 0
-            msg = None
+            while len(circuit.acks) > 0:
 
-            for packet_id in circuit.acks:
+                acks_this_packet = circuit.acks[:250]
+                msg = Message('PacketAck')
 
-                if acks_this_packet == 0:
+                for packet_id in acks_this_packet:
 
-                    msg = Message('PacketAck')
+                    block = Block("Packets", ID=packet_id)
+                    msg.add_block(block)
 
-                block = Block("Packets", ID=packet_id)
-                msg.add_block(block)
+                    if self.settings.LOG_VERBOSE and not self.settings.DISABLE_SPAMMERS:
+                        logger.debug("Acking packet id: %s" % (packet_id))
 
-                if self.settings.LOG_VERBOSE and not self.settings.DISABLE_SPAMMERS:
-                    logger.debug("Acking packet id: %s" % (packet_id))
+                # what could not be sent is still owed
+                if self.send_message(msg, circuit.host) == None:
+                    break
 
-                acks_this_packet += 1
-
-                if acks_this_packet > 250:
-
-                    self.send_message(msg, circuit.host)
-                    acks_this_packet = 0
-
-            if acks_this_packet > 0:
-
-                self.send_message(msg, circuit.host)
-
-            circuit.acks = []
+                del circuit.acks[:len(acks_this_packet)]
 
     def has_unacked(self):
         for circuit in self.circuit_manager.circuit_map.values():
-- 
2.43.0


From 03ec939cf8f6dd95e3ee05bef5c316463f830fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 10/44] fix: resend reliable packets that were not acked

Circuits with unacked packets were never found by process_acks, and the
resending code behind it passed its arguments the wrong way round and used
attributes that nothing sets. A packet is now resent as it was, with the
RESENT flag, as many times as asked for, and then only waits for its ack.
---
 pyogp/lib/base/message/circuit.py       | 13 ++++++-
 pyogp/lib/base/message/udpdispatcher.py | 45 ++++++++++++++++---------
 2 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/pyogp/lib/base/message/circuit.py b/pyogp/lib/base/message/circuit.py
index cf06ebd..fa1a93c 100644
--- a/pyogp/lib/base/message/circuit.py
+++ b/pyogp/lib/base/message/circuit.py
@@ -16,6 +16,8 @@ or in
 $/LicenseInfo$
 """
 
+import copy
+
 from msgtypes import PackFlags
 
 class Host(object):
@@ -88,7 +90,8 @@ class Circuit(object):
                 packet.add_ack(packet_id)
 
         if flag == PackFlags.LL_RELIABLE_FLAG:
-            self.add_reliable_packet(packet)
+            #a copy, as the message may be sent again under another packet id
+            self.add_reliable_packet(copy.copy(packet))
 
     def handle_packet(self, packet):
         #if its a reliable packet, get all acks from packet, set them to be acked
@@ -113,6 +116,14 @@ class Circuit(object):
             del self.final_retry_packets[packet_id]
             self.final_packet_count -= 1
 
+    def retire_reliable_packet(self, packet_id):
+        """ no more retries for a packet, but it can still be acked """
+        if packet_id in self.unacked_packets:
+            self.final_retry_packets[packet_id] = self.unacked_packets[packet_id]
+            del self.unacked_packets[packet_id]
+            self.unack_packet_count -= 1
+            self.final_packet_count += 1
+
     def collect_ack(self, packet_id):
         """ set a packet_id that this circuit needs to eventually ack
             (need to send ack out)"""
diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 589278d..109812d 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -183,13 +183,25 @@ class UDPDispatcher(object):
 
     def send_retry(self, message, host):
         """ This is a retry because we didn't get acked """
-        #sets up the message so send_message will add the RETRY flag to it
-        return self.__send_message(host, message, retrying=True)                
+        #it goes out as it did the first time, with the RESENT flag added
+        send_buffer = chr(ord(message.send_buffer[0]) | PackFlags.LL_RESENT_FLAG) + message.send_buffer[1:]
+
+        try:
+            self.udp_client.send_packet(self.socket, send_buffer, host)
+
+            self.packets_out += 1
+
+            return send_buffer
+
+        except Exception, error:
+            logger.warning("Error trying to resend packet %s: %s" % (message.packet_id, error))
+
+            return
 
     def send_message(self, message, host):
         return self.__send_message(message, host)
 
-    def __send_message(self, message, host, reliable=False, retries=0, retrying=False):
+    def __send_message(self, message, host, reliable=False, retries=0):
         """ Sends the message that is currently built to the desired host """
         #make sure host is OK (ip and address aren't null)
         if host.is_ok() == False:
@@ -209,16 +221,17 @@ class UDPDispatcher(object):
 
         if reliable == True:
             circuit.prepare_packet(packet, PackFlags.LL_RELIABLE_FLAG, retries)
-            if circuit.unack_packet_count <= 0:
-                self.circuit_manager.unacked_circuits[host] = circuit
-        elif retrying == True:
-            circuit.prepare_packet(packet, PackFlags.LL_RESENT_FLAG)
         else:
             circuit.prepare_packet(packet)
 
+        send_buffer = None
+
         try:
             send_buffer = self.udp_serializer.serialize(packet)
 
+            if reliable == True:
+                circuit.unacked_packets[packet.packet_id].send_buffer = send_buffer
+
             if self.settings.ENABLE_UDP_LOGGING:
                 if packet.name in self.settings.UDP_SPAMMERS and self.settings.DISABLE_SPAMMERS:
                     pass
@@ -247,6 +260,10 @@ class UDPDispatcher(object):
             logger.warning("Error trying to serialize the following packet: %s" % (packet))
             traceback.print_exc()
 
+            #there is nothing to be acked, or to resend
+            if reliable == True and send_buffer == None:
+                circuit.ack_reliable_packet(packet.packet_id)
+
             return
 
     def process_acks(self):
@@ -263,22 +280,18 @@ class UDPDispatcher(object):
         #now_time = get_time_now()
 
         #go through all circuits in the map
-        for circuit in self.circuit_manager.unacked_circuits.values():
+        for circuit in self.circuit_manager.circuit_map.values():
 
             for unacked_packet in circuit.unacked_packets.values():
 
-                unacked_packet.retries -= 1
-                #is this correct? should it be serialized or something?
-                #self.reset_send_buffer()
+                if unacked_packet.retries > 0:
 
-                self.send_buffer = ''
-                self.send_buffer += unacked_packet.buffer
-                self.send_retry(unacked_packet.host, unacked_packet.buffer)
+                    unacked_packet.retries -= 1
+                    self.send_retry(unacked_packet, circuit.host)
 
                 if unacked_packet.retries <= 0:
 
-                    circuit.final_retry_packets[unacked_packet.packet_id] = unacked_packet
-                    del circuit.unacked_packets[unacked_packet.packet_id]
+                    circuit.retire_reliable_packet(unacked_packet.packet_id)
 
             #final retries aren't resent, they are just forgotten about. boo
             #for unacked_packet in circuit.final_retry_packets.values():
-- 
2.43.0


From 8e24313d5c00d4d71fbee54c369e9c3652f1a9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 11/44] fix: do not null terminate Fixed and IPADDR fields

Their size is fixed by the template, so the added byte shifted everything
that follows.
---
 pyogp/lib/base/message/data_packer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message/data_packer.py b/pyogp/lib/base/message/data_packer.py
index 6897298..fc14e43 100644
--- a/pyogp/lib/base/message/data_packer.py
+++ b/pyogp/lib/base/message/data_packer.py
@@ -29,13 +29,13 @@ from pyogp.lib.base.helpers import Helpers
 class DataPacker(object):
     def __init__(self):
         self.packer = {}
-        self.packer[MsgType.MVT_FIXED]          = ('>',self.__pack_string)  #:DE 23oct2008 added handler for MVT_FIXED
+        self.packer[MsgType.MVT_FIXED]          = ('>',self.__pack_bytes)  #:DE 23oct2008 added handler for MVT_FIXED
         self.packer[MsgType.MVT_VARIABLE]       = ('>',self.__pack_string)
         self.packer[MsgType.MVT_S8]             = ('>','b')
         self.packer[MsgType.MVT_U8]             = ('>','B')
         self.packer[MsgType.MVT_BOOL]           = ('>','B')
         self.packer[MsgType.MVT_LLUUID]         = ('>',self.__pack_uuid)
-        self.packer[MsgType.MVT_IP_ADDR]        = ('>',self.__pack_string)
+        self.packer[MsgType.MVT_IP_ADDR]        = ('>',self.__pack_bytes)
         self.packer[MsgType.MVT_IP_PORT]        = ('>','H')
         self.packer[MsgType.MVT_U16]            = ('<','H')
         self.packer[MsgType.MVT_U32]            = ('<','I')
@@ -93,6 +93,10 @@ class DataPacker(object):
         else:
             return uuid.bytes
 
+    def __pack_bytes(self, endian, data):
+        """Return data of a fixed size as it is."""
+        return data
+
     def __pack_string(self, endian, pack_string):
         """Return the string UTF-8 encoded and null terminated."""
         if pack_string == None:
-- 
2.43.0


From 3828f762d2f47a07c1dec7e15a0f5239fd43e5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 12/44] fix: let the serializer use a custom message template

The file was passed as TemplateDictionary's template_list.
---
 pyogp/lib/base/message/udpserializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 60bbf4c..4486457 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -40,7 +40,7 @@ class UDPMessageSerializer(object):
         """initialize the adapter"""
         self.context = None	# the UDPMessage
 
-        self.template_dict = TemplateDictionary(message_template)
+        self.template_dict = TemplateDictionary(message_template = message_template)
         self.current_template = None
         self.packer = DataPacker()
 
-- 
2.43.0


From d6903b3b26549efd735f39a668eb64ca242f8606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 13/44] fix: apply a custom message.xml to what is sent and
 received

It was parsed by MessageManager and UDPDispatcher but never handed on.
---
 pyogp/lib/base/message/udpdispatcher.py | 6 ++++--
 pyogp/lib/base/message_manager.py       | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 109812d..dcc35de 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -100,8 +100,10 @@ class UDPDispatcher(object):
         # set up our parsers
         self.udp_deserializer = UDPMessageDeserializer(self.message_handler, 
                                                         self.settings,
-                                                        message_template = self.message_template)
-        self.udp_serializer = UDPMessageSerializer(message_template = self.message_template)
+                                                        message_template = self.message_template,
+                                                        message_xml = self.message_xml)
+        self.udp_serializer = UDPMessageSerializer(message_template = self.message_template,
+                                                    message_xml = self.message_xml)
 
     def find_circuit(self, host):
         circuit = self.circuit_manager.get_circuit(host)
diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 2cf8f4b..dd74dd6 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -109,7 +109,8 @@ class MessageManager(object):
 
         self.udp_dispatcher = UDPDispatcher(settings = self.settings,
                                             message_handler = self.message_handler,
-                                            message_template = self.message_template)
+                                            message_template = self.message_template,
+                                            message_xml = self.message_xml)
 
         # if start parameter = True, kick off the queue monitors
         if start_monitors:
-- 
2.43.0


From 17e5b2828152381863988077622f1ad74fa7fffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 14/44] fix: work without a message handler when HANDLE_PACKETS
 is off

Creating a MessageManager, UDPDispatcher or UDPMessageDeserializer with that
setting failed for want of the attribute.
---
 pyogp/lib/base/message/udpdeserializer.py | 4 +++-
 pyogp/lib/base/message/udpdispatcher.py   | 6 ++++--
 pyogp/lib/base/message_manager.py         | 2 ++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 522e76f..a4bbcda 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -64,6 +64,8 @@ class UDPMessageDeserializer(object):
             self.message_handler = message_handler
         elif self.settings.HANDLE_PACKETS:
             self.message_handler = MessageHandler()
+        else:
+            self.message_handler = None
 
     def deserialize(self, context):
 
@@ -127,7 +129,7 @@ class UDPMessageDeserializer(object):
 
             # if the packet is being handled, or if have have disabled deferred packet parsing, handle it!
             # the circuit needs to see every PacketAck
-            if self.message_handler.is_message_handled(self.current_template.name) or not self.settings.ENABLE_DEFERRED_PACKET_PARSING or self.current_template.name == 'PacketAck':
+            if (self.message_handler != None and self.message_handler.is_message_handled(self.current_template.name)) or not self.settings.ENABLE_DEFERRED_PACKET_PARSING or self.current_template.name == 'PacketAck':
 
                 try:
                     return self.__decode_data(msg_buff)
diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index dcc35de..1de4af2 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -96,6 +96,8 @@ class UDPDispatcher(object):
         elif self.settings.HANDLE_PACKETS:
             from pyogp.lib.base.message.message_handler import MessageHandler
             self.message_handler = MessageHandler()
+        else:
+            self.message_handler = None
 
         # set up our parsers
         self.udp_deserializer = UDPMessageDeserializer(self.message_handler, 
@@ -172,7 +174,7 @@ class UDPDispatcher(object):
                 if not self.settings.PROXY_LOGGING:
                     logger.debug('Received packet%s : %s (%s)%s' % (host_string, recv_packet.name, recv_packet.packet_id, hex_string))
 
-            if self.settings.HANDLE_PACKETS:
+            if self.settings.HANDLE_PACKETS and self.message_handler != None:
                 self.message_handler.handle(recv_packet)
 
         return recv_packet
@@ -215,7 +217,7 @@ class UDPDispatcher(object):
             packet = message()
 
         # enable monitoring of outgoing packets
-        if self.settings.HANDLE_OUTGOING_PACKETS:
+        if self.settings.HANDLE_OUTGOING_PACKETS and self.message_handler != None:
             self.message_handler.handle(packet)
 
         #use circuit manager to get the circuit to send on
diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index dd74dd6..74ac0be 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -62,6 +62,8 @@ class MessageManager(object):
             self.message_handler = message_handler
         elif self.settings.HANDLE_PACKETS:
             self.message_handler = MessageHandler()
+        else:
+            self.message_handler = None
 
         # allow the passing in of message_template.msg as a file handle
         if not message_template:
-- 
2.43.0


From 4acee0261c19a9727d850c634f0117d6d9bddcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 15/44] fix: check Single blocks, and allow no Variable blocks,
 when sending

A message with two blocks where the template has a Single one went out as
garbage, and one without any block of a Variable kind (as the deserializer
returns it for a count of 0) could not be sent at all.
---
 pyogp/lib/base/message/udpserializer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 4486457..3fe63aa 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -121,9 +121,17 @@ class UDPMessageSerializer(object):
         #the MsgData blocks is a list of lists
         #each block in the list is a block_list because you can have more than
         #one block for any given name
-        block_list = message_data.get_block(template_block.name)
+        if template_block.block_type == MsgBlockType.MBT_VARIABLE \
+        and template_block.name not in message_data.blocks:
+            #there may be none of these
+            block_list = []
+        else:
+            block_list = message_data.get_block(template_block.name)
         block_count = len(block_list)
 
+        if template_block.block_type == MsgBlockType.MBT_SINGLE and block_count != 1:
+            raise exc.MessageSerializationError(template_block.name, "block data mismatch")
+
         #multiple block type means there is a static number of these blocks
         #that make up this message, with the number stored in the template
         #don't need to add it to the buffer, because the message handlers that
-- 
2.43.0


From e8c98b7e0ff6882dae64bb3a176882523116825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 16/44] fix: warn about a template or xml that is not a file,
 as intended

The warning named an undefined logger, and the fallback import a module that
does not exist.
---
 pyogp/lib/base/message/udpdispatcher.py | 2 +-
 pyogp/lib/base/message_manager.py       | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 1de4af2..7b768a8 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -78,7 +78,7 @@ class UDPDispatcher(object):
             if isinstance(message_template, file):
                 self.message_template = message_template
             else:
-                log.warning("%s parameter is expected to be a filehandle, it is a %s. \
+                logger.warning("%s parameter is expected to be a filehandle, it is a %s. \
                         Using the embedded message_template.msg" % (message_template, type(message_template)))
                 self.message_template = None
 
diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 74ac0be..23f70f4 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -72,10 +72,10 @@ class MessageManager(object):
             if isinstance(message_template, file):
                 self.message_template = message_template
             else:
-                log.warning("%s parameter is expected to be a filehandle, it is a %s. \
+                logger.warning("%s parameter is expected to be a filehandle, it is a %s. \
                         Using the embedded message_template.msg" % (message_template, type(message_template)))
 
-                from pyogp.lib.base.data import msg_tmpl
+                from pyogp.lib.base.message.data import msg_tmpl
                 self.message_template = msg_tmpl
 
         # allow the passing in of message.xml as a file handle
@@ -86,7 +86,7 @@ class MessageManager(object):
             if isinstance(message_xml, file):
                 self.message_xml = MessageDotXML(message_xml = message_xml.read())
             else:
-                log.warning("%s parameter is expected to be a filehandle, it is a %s. \
+                logger.warning("%s parameter is expected to be a filehandle, it is a %s. \
                         Using the embedded message.xml" % (message_xml, type(message_xml)))
                 self.message_xml = MessageDotXML()
 
-- 
2.43.0


From 073d898e3622fec6096126cfb89aab82651d75ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 17/44] fix: Event survives changes to its subscribers during
 notify

A handler that unsubscribed itself made the next one miss the event. Also,
unsubscribing an unknown handler raised NameError rather than ValueError, and
clearSubscribers raised AttributeError.
---
 pyogp/lib/base/events.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/events.py b/pyogp/lib/base/events.py
index 45f45a9..19e495a 100644
--- a/pyogp/lib/base/events.py
+++ b/pyogp/lib/base/events.py
@@ -46,13 +46,14 @@ class Event(object):
 
         except:
 
-            raise ValueError("Handler '%s' is not subscribed to this event." %s (handler))
+            raise ValueError("Handler '%s' is not subscribed to this event." % (handler,))
 
         return self
 
     def notify(self, args):
 
-        for instance, inner_args, kwargs in self.subscribers:
+        # handlers may subscribe or unsubscribe while being notified
+        for instance, inner_args, kwargs in list(self.subscribers):
 
             try:
 
@@ -70,7 +71,7 @@ class Event(object):
 
     def clearSubscribers(self):
 
-        self.subscribers.clear()
+        del self.subscribers[:]
         return self
 
     def getSubscribers(self):
-- 
2.43.0


From 6aecfa94b69179e5f3b381cfd319618f9ecd54ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 18/44] fix: do not mistake a subscriber's KeyError for an
 unhandled message

---
 pyogp/lib/base/message/message_handler.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyogp/lib/base/message/message_handler.py b/pyogp/lib/base/message/message_handler.py
index 4daa4ac..77cb5bd 100644
--- a/pyogp/lib/base/message/message_handler.py
+++ b/pyogp/lib/base/message/message_handler.py
@@ -70,16 +70,16 @@ class MessageHandler(object):
 
             handler = self.handlers[message.name]
 
-            # Handle the message if we have subscribers
-            # Conveniently, this will also enable verbose message logging
-            if len(handler) > 0:
-                if self.settings.LOG_VERBOSE and not (self.settings.UDP_SPAMMERS and self.settings.DISABLE_SPAMMERS): logger.debug('Handling message : %s' % (message.name))
-
-                handler(message)
-
         except KeyError:
             #logger.info("Received an unhandled message: %s" % (message.name))
-            pass
+            return
+
+        # Handle the message if we have subscribers
+        # Conveniently, this will also enable verbose message logging
+        if len(handler) > 0:
+            if self.settings.LOG_VERBOSE and not (self.settings.UDP_SPAMMERS and self.settings.DISABLE_SPAMMERS): logger.debug('Handling message : %s' % (message.name))
+
+            handler(message)
 
 class MessageHandledNotifier(object):
     """ pseudo subclassing the Event class to treat the message like an event """
-- 
2.43.0


From cc3e9a83608b36a61410a3415664429f48427bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 19/44] fix: do not handle the previous events again when a
 poll fails

A failed POST left the previous result in place, and its events were passed
to the message handler once more.
---
 pyogp/lib/base/event_queue.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 0c06fe3..3dd570c 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -194,6 +194,8 @@ class EventQueueClient(object):
                         else:
                             host_string = ''
                         logger.info("Received an error we ought not care about%s: %s" % (host_string, error))
+                        # nothing new was received, the last id is still the one to ack
+                        continue
 
                     if self.result != None: 
                         self.last_id = self.result['id']
-- 
2.43.0


From 96aad678b5d79491a01fe206ebdd8cdc4d0a258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 20/44] fix: the event queue has stopped even if its final ack
 fails

---
 pyogp/lib/base/event_queue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 3dd570c..8c5ea01 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -211,7 +211,10 @@ class EventQueueClient(object):
                 # Need to ack the last message received, otherwise it will be
                 # resent if we re-connect to the same queue
                 self.data = {'ack':self.last_id, 'done':True}
-                self.cap.POST(self.data)
+                try:
+                    self.cap.POST(self.data)
+                except Exception, error:
+                    logger.warning("Error in the final post to the event queue. Error was: %s" % (error))
 
             self._running = False
 
-- 
2.43.0


From 2161b6730d8e9fcf19f66bc9baec0ac8bcda1043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 21/44] fix: a failing handler does not cost the rest of an
 event queue response

The response is acked as a whole, so the messages after the one whose handler
raised were lost.
---
 pyogp/lib/base/event_queue.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 8c5ea01..6a8eb7c 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -256,7 +256,12 @@ class EventQueueClient(object):
                 parsed_data = self._decode_eq_result(data)
 
                 for packet in parsed_data:
-                    self.message_handler.handle(packet)
+                    try:
+                        self.message_handler.handle(packet)
+                    except Exception, error:
+                        # the other messages in the response are not to blame
+                        traceback.print_exc()
+                        logger.warning("Error handling %s%s. Error: %s" % (packet.name, host_string, error))
 
         except Exception, error:
 
-- 
2.43.0


From 4e1de3d9e0037ad74a825b7089703f9f7f31c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 22/44] fix: stop_monitors with no event queue, or one not yet
 polling

Without an event queue it raised AttributeError, and an event queue whose
coroutine had been spawned but not run yet was never stopped.
---
 pyogp/lib/base/message_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 23f70f4..50e02d2 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -143,8 +143,8 @@ class MessageManager(object):
 
         #stops event_queue
 
-        if self.event_queue._running:
-            self.event_queue.stop()        
+        if self.event_queue != None:
+            self.event_queue.stop()
 
     def monitor_outgoing_queue(self):
         """  """
-- 
2.43.0


From 6ca3a3f6bdf4b6c53266989eb405e318b03a04bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 23/44] fix: apply MessageManager's settings to its event queue

---
 pyogp/lib/base/message_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 50e02d2..d3156d8 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -99,6 +99,7 @@ class MessageManager(object):
         self.capabilities = capabilities
         if self.capabilities.has_key('EventQueueGet'):
             self.event_queue = EventQueueClient(self.capabilities['EventQueueGet'], 
+                                                settings = self.settings,
                                                 message_handler = self.message_handler, 
                                                 host = self.host)
         else:
-- 
2.43.0


From 12547894e78749bdeeb1b9a331e0263b3bffea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 24/44] fix: keep the UDP connection going after a bad packet
 or failing handler

Any exception from receive_check or from sending ended the coroutine, and
with it the connection, without a trace.
---
 pyogp/lib/base/message_manager.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index d3156d8..2a5091a 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -176,16 +176,26 @@ class MessageManager(object):
         while self._is_running:
             api.sleep(0)
             msg_buf, msg_size = self.udp_dispatcher.udp_client.receive_packet(self.udp_dispatcher.socket)
-            recv_packet = self.udp_dispatcher.receive_check(self.udp_dispatcher.udp_client.get_sender(),
-                                                            msg_buf, 
-                                                            msg_size)
+            try:
+                recv_packet = self.udp_dispatcher.receive_check(self.udp_dispatcher.udp_client.get_sender(),
+                                                                msg_buf, 
+                                                                msg_size)
+            except Exception, error:
+                # a bad packet, or a handler that failed, mustn't end the connection
+                logger.warning("Error handling a packet received on the connection for %s: %s" % (self.host, error))
             #self.incoming_queue.append(recv_packet)
-            if self.udp_dispatcher.has_unacked():
-                self.udp_dispatcher.process_acks()
+            try:
+                if self.udp_dispatcher.has_unacked():
+                    self.udp_dispatcher.process_acks()
+            except Exception, error:
+                logger.warning("Error acking packets received on the connection for %s: %s" % (self.host, error))
 
             while len(self.outgoing_queue) > 0:                
                 (packet, reliable) = self.outgoing_queue.pop(0)
-                self.send_udp_message(packet, reliable)
+                try:
+                    self.send_udp_message(packet, reliable)
+                except Exception, error:
+                    logger.warning("Error sending a packet to %s: %s" % (self.host, error))
 
         logger.debug("Stopped the UDP connection for %s" % (self.host))
 
-- 
2.43.0


From 2cce1a3b0ec8e2cff8bba4737854f4bdf9363ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 25/44] fix: send the custom headers given to Capability.GET

---
 pyogp/lib/base/caps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/caps.py b/pyogp/lib/base/caps.py
index 0d05b33..b7df45d 100644
--- a/pyogp/lib/base/caps.py
+++ b/pyogp/lib/base/caps.py
@@ -71,7 +71,7 @@ class Capability(object):
         if self.settings.ENABLE_CAPS_LOGGING: logger.debug('%s: GETing %s' %(self.name, self.public_url))
 
         try:
-            response = self.restclient.GET(self.public_url)
+            response = self.restclient.GET(self.public_url, headers=custom_headers)
         except HTTPError, e:
             if e.code==404:
                 raise ResourceNotFound(self.public_url)
-- 
2.43.0


From 73af42fc1f65fad6bbc6b5b16f506b5217289427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 26/44] fix: accept LLSD whose value is false or zero

---
 pyogp/lib/base/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/helpers.py b/pyogp/lib/base/helpers.py
index 518e9df..a7273f4 100644
--- a/pyogp/lib/base/helpers.py
+++ b/pyogp/lib/base/helpers.py
@@ -266,7 +266,8 @@ class LLSDDeserializer(object):
             r = llsd.parse(data)
         except llsd.LLSDParseError, e:
             raise DeserializationFailed(data, str(e))
-        if r==False:
+        # llsd.parse returns False for no data at all; 0 and false are valid values
+        if r is False and data.strip() == '':
             raise DeserializationFailed(data, 'result was False')
         return r
 
-- 
2.43.0


From 6c6d207af7988bbe300fb5ecaa33d68b36783098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 27/44] fix: make UUID's != and hash agree with its ==

Without them two equal UUIDs also compared unequal and were different keys.
---
 pyogp/lib/base/datatypes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyogp/lib/base/datatypes.py b/pyogp/lib/base/datatypes.py
index bdfff7c..7c812cd 100644
--- a/pyogp/lib/base/datatypes.py
+++ b/pyogp/lib/base/datatypes.py
@@ -240,6 +240,11 @@ class UUID(object):
         else:
             return False
 
+    def __ne__(self, other):
+        return not self == other
+
+    def __hash__(self):
+        return hash(self.uuid)
 
     def __xor__(self, arg):
         """ the xor of two UUIDs """
-- 
2.43.0


From 9d634c23bf5b229bf79df3e8f82374aa8c59ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 28/44] fix: Message.to_dict includes every block of a name,
 not only the last

---
 pyogp/lib/base/message/message.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyogp/lib/base/message/message.py b/pyogp/lib/base/message/message.py
index b9f2529..3cb86bc 100644
--- a/pyogp/lib/base/message/message.py
+++ b/pyogp/lib/base/message/message.py
@@ -140,10 +140,10 @@ class Message(MessageBase):
                     this_var = _vars.get_variable(avar)
                     new_vars[this_var.name] = this_var.data
  
-            if block in base_repr['body']:
-                base_repr['body'][block].append(new_vars)
-            else: 
-                base_repr['body'][block] = [new_vars]
+                if block in base_repr['body']:
+                    base_repr['body'][block].append(new_vars)
+                else: 
+                    base_repr['body'][block] = [new_vars]
 
         return base_repr
 
-- 
2.43.0


From 497205c4274652938a4fa0a75b3196758366540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 29/44] fix: Message.to_llsd calls to_dict, as as_dict does not
 exist

---
 pyogp/lib/base/message/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/message.py b/pyogp/lib/base/message/message.py
index 3cb86bc..41be72f 100644
--- a/pyogp/lib/base/message/message.py
+++ b/pyogp/lib/base/message/message.py
@@ -170,7 +170,7 @@ class Message(MessageBase):
         TypeError: invalid type
         '''
         
-        return llsd.format_xml(self.as_dict())
+        return llsd.format_xml(self.to_dict())
 
     def data(self):
         """ a string representation of a packet """
-- 
2.43.0


From e592c45d630ee48d50d3444cb9c973f02ee00f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 30/44] fix: import the exceptions that the template parser
 raises

---
 pyogp/lib/base/message/template_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyogp/lib/base/message/template_parser.py b/pyogp/lib/base/message/template_parser.py
index 4dd402a..3f7c5dd 100644
--- a/pyogp/lib/base/message/template_parser.py
+++ b/pyogp/lib/base/message/template_parser.py
@@ -27,6 +27,7 @@ import template
 from data import msg_tmpl
 from msgtypes import MsgFrequency, MsgTrust, MsgEncoding
 from msgtypes import MsgDeprecation, MsgBlockType, MsgType, sizeof
+from pyogp.lib.base import exc
 
 MESSAGE = 1
 BLOCK = 2
-- 
2.43.0


From 13bbf74cf7005c67160f050a76520ddb58279cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 31/44] fix: event queue: other entries of a response don't
 lose its events

---
 pyogp/lib/base/event_queue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 6a8eb7c..e51bd87 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -286,9 +286,9 @@ class EventQueueClient(object):
 
                 for i in data:
 
-                    if i == 'id':
+                    if i != 'events':
 
-                        #last_id = data[i]
+                        # the id, or something we don't know
                         pass
 
                     else:
-- 
2.43.0


From c9e1151d265b786d9f3c22d1ba046b33a7278ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 32/44] fix: log and send non-ascii payloads to unicode urls

A url taken from parsed llsd may be unicode: formatting it together with a
body, or building a request from it, then raised UnicodeDecodeError for any
body that was not ascii.
---
 pyogp/lib/base/caps.py                  | 10 +++++-----
 pyogp/lib/base/network/stdlib_client.py | 15 +++++++++++++--
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/pyogp/lib/base/caps.py b/pyogp/lib/base/caps.py
index b7df45d..6883233 100644
--- a/pyogp/lib/base/caps.py
+++ b/pyogp/lib/base/caps.py
@@ -90,8 +90,8 @@ class Capability(object):
 
         data = deserializer.deserialize(response.body)
 
-        if self.settings.LOG_VERBOSE and self.settings.ENABLE_CAPS_LLSD_LOGGING: logger.debug('Received the following llsd from %s: %s' % (self.public_url, response.body.strip()))
-        if self.settings.ENABLE_CAPS_LOGGING: logger.debug('Get of cap %s response is: %s' % (self.public_url, data))        
+        if self.settings.LOG_VERBOSE and self.settings.ENABLE_CAPS_LLSD_LOGGING: logger.debug('Received the following llsd from %s: %r' % (self.public_url, response.body.strip()))
+        if self.settings.ENABLE_CAPS_LOGGING: logger.debug('Get of cap %s response is: %r' % (self.public_url, data))        
 
         return data
 
@@ -111,7 +111,7 @@ class Capability(object):
         content_type = serializer.content_type
         serialized_payload = serializer.serialize()
 
-        if self.settings.LOG_VERBOSE and self.settings.ENABLE_CAPS_LLSD_LOGGING: logger.debug('Posting the following payload to %s: %s' % (self.public_url, serialized_payload))
+        if self.settings.LOG_VERBOSE and self.settings.ENABLE_CAPS_LLSD_LOGGING: logger.debug('Posting the following payload to %s: %r' % (self.public_url, serialized_payload))
 
         headers = {"Content-type" : content_type}
         headers.update(custom_headers)  # give the user the ability to add headers 
@@ -162,8 +162,8 @@ class Capability(object):
 
         data = deserializer.deserialize(response.body)
 
-        if self.settings.ENABLE_CAPS_LLSD_LOGGING: logger.debug('Received the following llsd from %s: %s' % (self.public_url, response.body.strip()))
-        if self.settings.ENABLE_CAPS_LOGGING: logger.debug('Post to cap %s response is: %s' % (self.public_url, data))        
+        if self.settings.ENABLE_CAPS_LLSD_LOGGING: logger.debug('Received the following llsd from %s: %r' % (self.public_url, response.body.strip()))
+        if self.settings.ENABLE_CAPS_LOGGING: logger.debug('Post to cap %s response is: %r' % (self.public_url, data))        
 
         return data
 
diff --git a/pyogp/lib/base/network/stdlib_client.py b/pyogp/lib/base/network/stdlib_client.py
index 97836ec..5cd992d 100644
--- a/pyogp/lib/base/network/stdlib_client.py
+++ b/pyogp/lib/base/network/stdlib_client.py
@@ -23,13 +23,24 @@ from pyogp.lib.base.exc import HTTPError
 
 from webob import Request, Response
 
+def _request(url, data, headers):
+    """ a request whose url and headers are byte strings
+
+    a unicode one (as found in parsed llsd) would make the whole request unicode,
+    which cannot hold a body that is not ascii
+    """
+
+    headers = dict([(str(name), str(value)) for name, value in headers.items()])
+
+    return urllib2.Request(str(url), data, headers=headers)
+
 class StdLibClient(object):
     """ implement a REST client on top of urllib2 """
 
     def GET(self, url, headers={}):
         """ GET a resource """ 
 
-        request = urllib2.Request(url, headers=headers)
+        request = _request(url, None, headers)
         try:
             result = urllib2.urlopen(request)
         except urllib2.HTTPError, error:
@@ -44,7 +55,7 @@ class StdLibClient(object):
     def POST(self, url, data, headers={}):
         """ POST data to a resource """
 
-        request = urllib2.Request(url, data, headers=headers)
+        request = _request(url, data, headers)
         try:
             result = urllib2.urlopen(request)
         except urllib2.HTTPError, error:
-- 
2.43.0


From d781331914b11d8c94d37f56a6f9e03a7816ef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 33/44] fix: malformed LLSD always raises DeserializationFailed

llsd.parse raises IndexError, ValueError or UnicodeEncodeError for some
malformed documents (an unterminated string, a bad number or uuid), which
got past deserialize().
---
 pyogp/lib/base/helpers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/helpers.py b/pyogp/lib/base/helpers.py
index a7273f4..565ebaf 100644
--- a/pyogp/lib/base/helpers.py
+++ b/pyogp/lib/base/helpers.py
@@ -264,8 +264,14 @@ class LLSDDeserializer(object):
 
         try:
             r = llsd.parse(data)
-        except llsd.LLSDParseError, e:
-            raise DeserializationFailed(data, str(e))
+        except Exception, e:
+            # malformed data makes llsd.parse raise more than LLSDParseError,
+            # e.g. an IndexError or a ValueError
+            try:
+                reason = str(e)
+            except UnicodeError:
+                reason = repr(e)
+            raise DeserializationFailed(data, reason)
         # llsd.parse returns False for no data at all; 0 and false are valid values
         if r is False and data.strip() == '':
             raise DeserializationFailed(data, 'result was False')
-- 
2.43.0


From a7c09dfcccb2b710506b1b39d0a2c5fb558eab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 34/44] fix: accept text/html LLSD replies that contain
 newlines

Whether a reply was recognised as LLSD depended on there being no newline
anywhere in its values.
---
 pyogp/lib/base/caps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/caps.py b/pyogp/lib/base/caps.py
index 6883233..6a2c3b5 100644
--- a/pyogp/lib/base/caps.py
+++ b/pyogp/lib/base/caps.py
@@ -149,7 +149,7 @@ class Capability(object):
         content_type_charset = response.headers['Content-Type']
         content_type = content_type_charset.split(";")[0] # remove the charset part
 
-        pattern = re.compile('<\?xml\sversion="1.0"\s\?><llsd>.*?</llsd>.*')
+        pattern = re.compile('<\?xml\sversion="1.0"\s\?><llsd>.*?</llsd>.*', re.DOTALL)
         # ToDo: write a generic serializer/deserializer
         if (content_type == 'application/llsd+xml') or \
                (content_type == 'application/xml') or \
-- 
2.43.0


From 3c805e3d5b33f62bec1aa02d87d672058d30aca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:22 +0000
Subject: [PATCH 35/44] fix: managers without capabilities do not share one
 dictionary

The default argument was one dictionary for all: a capability added to one
manager (its event queue, say) showed up in every manager made afterwards.
---
 pyogp/lib/base/message_manager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 2a5091a..701457c 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -38,7 +38,7 @@ class MessageManager(object):
     functionality in the base/message directory.
     """
 
-    def __init__(self, host, message_handler=None, capabilities={},
+    def __init__(self, host, message_handler=None, capabilities=None,
                  settings=None, start_monitors=False, message_template = None, message_xml = None):
         """ 
         Initialize the MessageManager, applying custom settings and dedicated 
@@ -96,7 +96,11 @@ class MessageManager(object):
         self._is_running = False
 
         #event queue-related attributes
-        self.capabilities = capabilities
+        if capabilities != None:
+            self.capabilities = capabilities
+        else:
+            self.capabilities = {}
+
         if self.capabilities.has_key('EventQueueGet'):
             self.event_queue = EventQueueClient(self.capabilities['EventQueueGet'], 
                                                 settings = self.settings,
-- 
2.43.0


From b4a83ab2e3e19179b0aa54e1776b741931ec1d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:27 +0000
Subject: [PATCH 36/44] fix: show messages with unicode values and fixed fields
 of odd size

Message.data() raised for a value or name that is unicode but not ascii, and
for fixed size fields of an odd number of bytes. Logging that a message cannot
be serialized failed with it, so that it stayed in the unacked packets.
---
 pyogp/lib/base/message/message.py  | 13 ++++++++++---
 pyogp/lib/base/message/template.py |  9 +++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/pyogp/lib/base/message/message.py b/pyogp/lib/base/message/message.py
index 41be72f..62e9620 100644
--- a/pyogp/lib/base/message/message.py
+++ b/pyogp/lib/base/message/message.py
@@ -172,6 +172,13 @@ class Message(MessageBase):
         
         return llsd.format_xml(self.to_dict())
 
+    def _shown(self, name):
+        """ names may be unicode, values are shown as byte strings """
+
+        if isinstance(name, unicode):
+            return name.encode('utf-8')
+        return name
+
     def data(self):
         """ a string representation of a packet """
 
@@ -181,11 +188,11 @@ class Message(MessageBase):
         for k in self.__dict__:
 
             if k == 'name':
-                string += '\nName: %s\n' % (self.name)
+                string += '\nName: %s\n' % (self._shown(self.name))
             if k == 'blocks':
 
                 for ablock in self.blocks:
-                    string += "%sBlock Name:%s%s\n" % (delim, delim, ablock)
+                    string += "%sBlock Name:%s%s\n" % (delim, delim, self._shown(ablock))
                     for somevars in self.blocks[ablock]:
 
                         for avar in somevars.var_list:
@@ -195,7 +202,7 @@ class Message(MessageBase):
                             #    string += "%s%s%s:%s%s\n" % (delim, delim, zvar.name, delim, hexlify(zvar.data))
                             #except TypeError:
                             #    string += "%s%s%s:%s%s\n" % (delim, delim, zvar.name, delim, zvar.data)
-                            string += "%s%s%s:%s%s\n" % (delim, delim, zvar.name, delim, zvar)
+                            string += "%s%s%s:%s%s\n" % (delim, delim, self._shown(zvar.name), delim, zvar)
 
         return string
 
diff --git a/pyogp/lib/base/message/template.py b/pyogp/lib/base/message/template.py
index 52a033f..938fddb 100644
--- a/pyogp/lib/base/message/template.py
+++ b/pyogp/lib/base/message/template.py
@@ -90,10 +90,15 @@ class MsgVariableData(object):
         return MsgType.MVT_as_string(self.var_type) #LDE 23oct2008 adding var_type_as_string to allow for easier display
 
     def get_data_as_string(self):
-        if self.var_type == MsgType.MVT_VARIABLE:
+        if isinstance(self.data, unicode):
+            # it is shown together with byte strings
+            return self.data.encode('utf-8')
+        elif self.var_type == MsgType.MVT_VARIABLE:
             return self.data
         elif self.var_type == MsgType.MVT_FIXED:
-            return str(struct.unpack('h'*(len(self.data)/2), self.data))
+            # an odd size leaves one byte over
+            size = len(self.data)
+            return str(struct.unpack('h'*(size/2) + 'b'*(size%2), self.data))
         else: 
             return str(self.data)
 
-- 
2.43.0


From 5152474487e9ea99ca858bd2bd770ea9c55c78c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:17 +0000
Subject: [PATCH 37/44] fix: print errors that hold unicode and byte strings

str() of the library's errors raised UnicodeError for a url, name or payload
that isn't ascii.
---
 pyogp/lib/base/exc.py | 48 ++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/pyogp/lib/base/exc.py b/pyogp/lib/base/exc.py
index f9b4cae..f1961ba 100644
--- a/pyogp/lib/base/exc.py
+++ b/pyogp/lib/base/exc.py
@@ -20,6 +20,16 @@ $/LicenseInfo$
 Exceptions for the pyogp library
 """
 
+def printable(value):
+    """ unicode can't be shown together with byte strings """
+
+    try:
+        return str(value)
+    except UnicodeError:
+        if isinstance(value, unicode):
+            return value.encode('utf-8')
+        return repr(value)
+
 class Error(Exception):
     """base exception for all pyogp related exceptions"""
 
@@ -33,7 +43,7 @@ class LoginError(Error):
         self.error = error
 
     def __str__(self):
-        return "Agent login error: %s" % (self.error)
+        return "Agent login error: %s" % printable(self.error)
 
 class ParseStartLocError(LoginError):
     """ raised when the is an error in parsing the user specified start location """
@@ -61,7 +71,7 @@ class HTTPError(NetworkError):
 
     def __str__(self):
         """return a string representation"""
-        return "%s %s" %(self.code, self.msg)
+        return "%s %s" %(printable(self.code), printable(self.msg))
 
 class ResourceNotFound(NetworkError):
     """raised if a resource couldn't be found
@@ -73,7 +83,7 @@ class ResourceNotFound(NetworkError):
         self.url = url
 
     def __str__(self):
-        return self.url
+        return printable(self.url)
 
 class ResourceError(NetworkError):
     """raised if any other error occurred (usually a 500)
@@ -91,7 +101,7 @@ class ResourceError(NetworkError):
 
     def __str__(self):
         """return a printable version"""
-        return "Error using '%s' on resource '%s': %s (%s)" %(self.method, self.url, self.message, self.code)
+        return "Error using '%s' on resource '%s': %s (%s)" %(printable(self.method), printable(self.url), printable(self.message), printable(self.code))
 
 
 ### Serialization errors
@@ -116,7 +126,7 @@ class DeserializerNotFound(DeserializationError):
         self.content_type = content_type
 
     def __str__(self):
-        return "deserialization for '%s' not supported" % (self.content_type)
+        return "deserialization for '%s' not supported" % printable(self.content_type)
 
 class CredentialDeserializerNotFound(DeserializationError):
     """raised if a deserializer for a certain content type couldn't be found
@@ -128,7 +138,7 @@ class CredentialDeserializerNotFound(DeserializationError):
         self.payload = payload
 
     def __str__(self):
-        return "deserialization for payload '%s' not supported" % (self.payload)
+        return "deserialization for payload '%s' not supported" % printable(self.payload)
 
 class DeserializationFailed(DeserializationError):
     """raised if a deserializer couldn't deserialize a payload
@@ -142,7 +152,7 @@ class DeserializationFailed(DeserializationError):
         self.reason = reason
 
     def __str__(self):
-        return "deserialization failed for '%s', reason: '%s'" %(self.payload, self.reason)
+        return "deserialization failed for '%s', reason: '%s'" %(printable(self.payload), printable(self.reason))
 
 
 ### Message System related errors
@@ -161,7 +171,7 @@ class MessageTemplateNotFound(MessageSystemError):
         self.template = template
 
     def __str__(self):   
-        return "No message template found, context: '%s'" % (self.context)
+        return "No message template found, context: '%s'" % printable(self.context)
 
 class MessageTemplateParsingError(MessageSystemError):
     """ message template parsing error
@@ -174,7 +184,7 @@ class MessageTemplateParsingError(MessageSystemError):
         self.template = template
 
     def __str__(self):   
-        return "Error parsing message template, context: '%s'" % (self.context)
+        return "Error parsing message template, context: '%s'" % printable(self.context)
 
 class CircuitNotFound(MessageSystemError):
     """ circuit to host could not be found
@@ -187,7 +197,7 @@ class CircuitNotFound(MessageSystemError):
         self.reason = reason
 
     def __str__(self):   
-        return "No circuit to '%s' found, reason: '%s'" % (self.host, self.reason)
+        return "No circuit to '%s' found, reason: '%s'" % (printable(self.host), printable(self.reason))
 
 class MessageBuildingError(MessageSystemError):
     """ problem serializing packet data
@@ -200,7 +210,7 @@ class MessageBuildingError(MessageSystemError):
         self.reason = reason
 
     def __str__(self):   
-        return "Error serializing '%s' due to reason: '%s'" % (self.label, self.reason)
+        return "Error serializing '%s' due to reason: '%s'" % (printable(self.label), printable(self.reason))
 
 class MessageSerializationError(MessageSystemError):
     """ problem serializing packet data
@@ -213,7 +223,7 @@ class MessageSerializationError(MessageSystemError):
         self.reason = reason
 
     def __str__(self):   
-        return "Error serializing '%s' due to reason: '%s'" % (self.label, self.reason)    
+        return "Error serializing '%s' due to reason: '%s'" % (printable(self.label), printable(self.reason))    
 
 class MessageDeserializationError(MessageSystemError):
     """ problem deserializing packet data
@@ -226,7 +236,7 @@ class MessageDeserializationError(MessageSystemError):
         self.reason = reason
 
     def __str__(self):   
-        return "Error deserializing '%s' due to reason: '%s'" % (self.label, self.reason) 
+        return "Error deserializing '%s' due to reason: '%s'" % (printable(self.label), printable(self.reason)) 
 
 class DataUnpackingError(MessageSystemError):
     """ problem deserializing packet data
@@ -239,7 +249,7 @@ class DataUnpackingError(MessageSystemError):
         self.reason = reason
 
     def __str__(self):   
-        return "Error serializing '%s' due to reason: '%s'" % (self.data, self.reason) 
+        return "Error serializing '%s' due to reason: '%s'" % (printable(self.data), printable(self.reason)) 
 
 ##########################
 ### high level exceptions
@@ -302,7 +312,7 @@ class RegionSeedCapNotAvailable(RegionDomainError):
         self.reason = reason
 
     def __str__(self):   
-        return "Region seed capability not found when %s'" % (self.reason)  
+        return "Region seed capability not found when %s'" % printable(self.reason)  
 
 class RegionCapNotAvailable(RegionDomainError):
     """an error raised in case a user couldn't be authorized
@@ -330,7 +340,7 @@ class RegionMessageError(RegionDomainError):
         self.region = region
 
     def __str__(self):   
-        return "Agent has no udp connection enabled for: %s'" % (self.region)
+        return "Agent has no udp connection enabled for: %s'" % printable(self.region)
 
 ### General errors
 
@@ -345,7 +355,7 @@ class DataParsingError(Error):
         self.error = error
 
     def __str__(self):   
-        return "Data parsing error: %s'" % (self.error)
+        return "Data parsing error: %s'" % printable(self.error)
 
 class NotImplemented(Error):
     """ an error raised when method is not implemented """
@@ -356,7 +366,7 @@ class NotImplemented(Error):
         self.error = error
 
     def __str__(self):
-        return "This method has to be implemented here: %s" % (self.error)
+        return "This method has to be implemented here: %s" % printable(self.error)
 
 class Deprecated(Error):
     """ an error raised when method is not implemented """
@@ -367,6 +377,6 @@ class Deprecated(Error):
         self.thing = thing
 
     def __str__(self):
-        return "This thing is deprecated: %s" % (self.thing)
+        return "This thing is deprecated: %s" % printable(self.thing)
 
 
-- 
2.43.0


From c96023f25033c411ab0092dcdf354060e6cf6845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:17 +0000
Subject: [PATCH 38/44] fix: an error that cannot be printed mustn't end the
 connection

A subscriber's exception whose str() fails ended the UDP connection and the
event queue's handling of the rest of a response.
---
 pyogp/lib/base/event_queue.py     | 12 ++++++------
 pyogp/lib/base/message_manager.py |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index e51bd87..06e3ef6 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -133,7 +133,7 @@ class EventQueueClient(object):
 
         except Exception, error:
 
-            logger.error("Problem starting event queue for %s with cap of %s, with an error of: %s" % (self.host, str(self.cap), error))
+            logger.error("Problem starting event queue for %s with cap of %s, with an error of: %r" % (self.host, str(self.cap), error))
 
             return False
 
@@ -193,7 +193,7 @@ class EventQueueClient(object):
                             host_string = ' from (%s)' % self.host
                         else:
                             host_string = ''
-                        logger.info("Received an error we ought not care about%s: %s" % (host_string, error))
+                        logger.info("Received an error we ought not care about%s: %r" % (host_string, error))
                         # nothing new was received, the last id is still the one to ack
                         continue
 
@@ -205,7 +205,7 @@ class EventQueueClient(object):
                     self._parse_result(self.result)
 
                 except Exception, error:
-                    logger.warning("Error in a post to the event queue. Error was: %s" % (error))
+                    logger.warning("Error in a post to the event queue. Error was: %r" % (error,))
 
             if self.last_id != -1:
                 # Need to ack the last message received, otherwise it will be
@@ -214,7 +214,7 @@ class EventQueueClient(object):
                 try:
                     self.cap.POST(self.data)
                 except Exception, error:
-                    logger.warning("Error in the final post to the event queue. Error was: %s" % (error))
+                    logger.warning("Error in the final post to the event queue. Error was: %r" % (error,))
 
             self._running = False
 
@@ -261,7 +261,7 @@ class EventQueueClient(object):
                     except Exception, error:
                         # the other messages in the response are not to blame
                         traceback.print_exc()
-                        logger.warning("Error handling %s%s. Error: %s" % (packet.name, host_string, error))
+                        logger.warning("Error handling %s%s. Error: %r" % (packet.name, host_string, error))
 
         except Exception, error:
 
@@ -269,7 +269,7 @@ class EventQueueClient(object):
 
             host_string = ' from (%s)' % self.host
 
-            logger.warning("Error parsing even queue results%s. Error: %s. Data was: %s" % (host_string, error, data))
+            logger.warning("Error parsing even queue results%s. Error: %r. Data was: %s" % (host_string, error, data))
 
     def _decode_eq_result(self, data=None):
         """ parse the event queue data, return a list of packets
diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 701457c..1600078 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -186,20 +186,20 @@ class MessageManager(object):
                                                                 msg_size)
             except Exception, error:
                 # a bad packet, or a handler that failed, mustn't end the connection
-                logger.warning("Error handling a packet received on the connection for %s: %s" % (self.host, error))
+                logger.warning("Error handling a packet received on the connection for %s: %r" % (self.host, error))
             #self.incoming_queue.append(recv_packet)
             try:
                 if self.udp_dispatcher.has_unacked():
                     self.udp_dispatcher.process_acks()
             except Exception, error:
-                logger.warning("Error acking packets received on the connection for %s: %s" % (self.host, error))
+                logger.warning("Error acking packets received on the connection for %s: %r" % (self.host, error))
 
             while len(self.outgoing_queue) > 0:                
                 (packet, reliable) = self.outgoing_queue.pop(0)
                 try:
                     self.send_udp_message(packet, reliable)
                 except Exception, error:
-                    logger.warning("Error sending a packet to %s: %s" % (self.host, error))
+                    logger.warning("Error sending a packet to %s: %r" % (self.host, error))
 
         logger.debug("Stopped the UDP connection for %s" % (self.host))
 
-- 
2.43.0


From 8199b66e02169b53391b2dffaa4417623e261dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:17 +0000
Subject: [PATCH 39/44] fix: repr() of a NetUDPClient shows its sender

It returned the method, a TypeError.
---
 pyogp/lib/base/network/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/network/net.py b/pyogp/lib/base/network/net.py
index 148eca2..e89bb2b 100644
--- a/pyogp/lib/base/network/net.py
+++ b/pyogp/lib/base/network/net.py
@@ -68,7 +68,7 @@ class NetUDPClient(object):
 
     def __repr__(self):
 
-        return self.sender.__repr__
+        return repr(self.sender)
 
 """
 Contributors can be viewed at:
-- 
2.43.0


From 91b7c6d98c3a049ed76ed3eff49bbc050eb72897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:42 +0000
Subject: [PATCH 40/44] fix: show capabilities with unicode urls, log messages
 with unicode names

---
 pyogp/lib/base/caps.py    | 6 +++---
 pyogp/lib/base/helpers.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyogp/lib/base/caps.py b/pyogp/lib/base/caps.py
index 6a2c3b5..ecdb90e 100644
--- a/pyogp/lib/base/caps.py
+++ b/pyogp/lib/base/caps.py
@@ -25,7 +25,7 @@ import re
 
 # pyogp
 from pyogp.lib.base.network.stdlib_client import StdLibClient, HTTPError
-from pyogp.lib.base.exc import ResourceNotFound, ResourceError, DeserializerNotFound
+from pyogp.lib.base.exc import ResourceNotFound, ResourceError, DeserializerNotFound, printable
 from pyogp.lib.base.settings import Settings
 from pyogp.lib.base.helpers import LLSDDeserializer, ListLLSDSerializer, DictLLSDSerializer
 
@@ -169,7 +169,7 @@ class Capability(object):
 
 
     def __repr__(self):
-        return "<Capability '%s' for %s>" %(self.name, self.public_url)
+        return "<Capability '%s' for %s>" %(printable(self.name), printable(self.public_url))
 
 class SeedCapability(Capability):
     """ a seed capability which is able to retrieve other capabilities """
@@ -192,7 +192,7 @@ class SeedCapability(Capability):
         return caps
 
     def __repr__(self):
-        return "<SeedCapability for %s>" %self.public_url
+        return "<SeedCapability for %s>" %printable(self.public_url)
 
 
 
diff --git a/pyogp/lib/base/helpers.py b/pyogp/lib/base/helpers.py
index 565ebaf..9c18eef 100644
--- a/pyogp/lib/base/helpers.py
+++ b/pyogp/lib/base/helpers.py
@@ -27,7 +27,7 @@ from llbase import llsd
 from eventlet import api
 
 # pyogp
-from pyogp.lib.base.exc import DataParsingError, DeserializationFailed
+from pyogp.lib.base.exc import DataParsingError, DeserializationFailed, printable
 
 # initialize loggin
 logger = getLogger('...utilities.helpers')
@@ -147,7 +147,7 @@ class Helpers(object):
     def log_packet(packet, _object):
         """ default logging function for packets  """
 
-        logger.info("Object %s is monitoring packet type %s: \n%s" % (type(_object), packet.name, packet.data()))
+        logger.info("Object %s is monitoring packet type %s: \n%s" % (type(_object), printable(packet.name), packet.data()))
 
     @staticmethod
     def log_event_queue_data(data, _object):
-- 
2.43.0


From da8a842789e79d0e4813f7654de8d015db2be72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:07 +0000
Subject: [PATCH 41/44] fix: receive datagrams of more than 10000 bytes whole

---
 pyogp/lib/base/network/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/network/net.py b/pyogp/lib/base/network/net.py
index e89bb2b..4e742a9 100644
--- a/pyogp/lib/base/network/net.py
+++ b/pyogp/lib/base/network/net.py
@@ -42,7 +42,7 @@ class NetUDPClient(object):
         bytes = sock.sendto(send_buffer, (host.ip, host.port))
 
     def receive_packet(self, sock):
-        buf = 10000
+        buf = 65536 # what is longer would be cut off
         try:
             data, addr = sock.recvfrom(buf)
             #print "Received data: " + repr(data)
-- 
2.43.0


From 75c1b84ffa5a92aada9fd36741bfe8ce20c42dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:00 +0000
Subject: [PATCH 42/44] fix: a content type given for a POST overrides the
 default however it is spelled

---
 pyogp/lib/base/caps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyogp/lib/base/caps.py b/pyogp/lib/base/caps.py
index ecdb90e..3d8f0a0 100644
--- a/pyogp/lib/base/caps.py
+++ b/pyogp/lib/base/caps.py
@@ -114,6 +114,8 @@ class Capability(object):
         if self.settings.LOG_VERBOSE and self.settings.ENABLE_CAPS_LLSD_LOGGING: logger.debug('Posting the following payload to %s: %r' % (self.public_url, serialized_payload))
 
         headers = {"Content-type" : content_type}
+        if 'content-type' in [name.lower() for name in custom_headers]:
+            headers = {}    # the user's own one is sent, however it is spelled
         headers.update(custom_headers)  # give the user the ability to add headers 
 
         try:
-- 
2.43.0


From 26889d67ce92c6261351ebf9af9834b150ee586b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:00 +0000
Subject: [PATCH 43/44] fix: recognize content types in any case, and with a
 space before their parameters

---
 pyogp/lib/base/caps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/caps.py b/pyogp/lib/base/caps.py
index 3d8f0a0..44a5dc3 100644
--- a/pyogp/lib/base/caps.py
+++ b/pyogp/lib/base/caps.py
@@ -80,7 +80,7 @@ class Capability(object):
 
         # now deserialize the data again
         content_type_charset = response.headers['Content-Type']
-        content_type = content_type_charset.split(";")[0] # remove the charset part
+        content_type = content_type_charset.split(";")[0].strip().lower() # remove the charset part
 
         # ToDo: write a generic serializer/deserializer
         if (content_type == 'application/llsd+xml'):
@@ -149,7 +149,7 @@ class Capability(object):
         # now deserialize the data again, we ask for a utility with the content type
         # as the name
         content_type_charset = response.headers['Content-Type']
-        content_type = content_type_charset.split(";")[0] # remove the charset part
+        content_type = content_type_charset.split(";")[0].strip().lower() # remove the charset part
 
         pattern = re.compile('<\?xml\sversion="1.0"\s\?><llsd>.*?</llsd>.*', re.DOTALL)
         # ToDo: write a generic serializer/deserializer
-- 
2.43.0


From 6b8cf96811bddd2fc457eecabb52dc446a231fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:07 +0000
Subject: [PATCH 44/44] fix: refuse variable fields and blocks that are too
 long to be counted

---
 pyogp/lib/base/message/udpserializer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 3fe63aa..8a0400c 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -144,6 +144,9 @@ class UDPMessageSerializer(object):
         #mark how many blocks there are of this type that repeat, stored in
         #the data
         if template_block.block_type == MsgBlockType.MBT_VARIABLE:
+            if block_count > 255:
+                raise exc.MessageSerializationError(template_block.name, "too many blocks to be counted in a byte")
+
             block_buffer += struct.pack('>B', block_count)
             bytes += 1            
 
@@ -163,6 +166,9 @@ class UDPMessageSerializer(object):
 
                 #if its a VARIABLE type, we have to write in the size of the data
                 if v.type == MsgType.MVT_VARIABLE:
+                    if len(data) >= 1 << (8 * var_size):
+                        raise exc.MessageSerializationError(v.name, "value is too long")
+
                     #data_size = template_block.get_variable(variable.name).size
                     if var_size == 1:
                         block_buffer += self.packer.pack_data(len(data), MsgType.MVT_U8)
-- 
2.43.0

