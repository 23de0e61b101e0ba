From ab94437cc972ddbbf3856c3c719dc4f73981793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 01/41] fix: DPT_Float_16 encodes a negative value rounding to
 zero as zero

---
 knx_stack/datapointtypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 431c7c1..a358d9e 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -678,6 +678,8 @@ class DPT_Float_16(Union):
         exp = 0
         max_mantissa_value = (1 << 11) - 1
         max_exp_value = (1 << 4) - 1
+        if mantissa == 0:
+            sign = 1  # there is no negative zero
 
         while mantissa > max_mantissa_value:
             mantissa >>= 1
-- 
2.43.0


From 55a0f77768dbed4b25617286d872f4c9262d851e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 02/41] fix: DPT_Float_16 accepts its lowest representable
 value

---
 knx_stack/datapointtypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index a358d9e..086a41b 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -680,6 +680,8 @@ class DPT_Float_16(Union):
         max_exp_value = (1 << 4) - 1
         if mantissa == 0:
             sign = 1  # there is no negative zero
+        elif sign < 0:
+            max_mantissa_value += 1  # two's complement, -2048 is representable
 
         while mantissa > max_mantissa_value:
             mantissa >>= 1
-- 
2.43.0


From a17f89924ed61973bc8b9d78e2c8ea0b0225f6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 03/41] fix: a retransmitted tunnelling request is recognised
 when the sequence counter wraps

---
 knx_stack/decode/knxnet_ip/tunneling/req.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/tunneling/req.py b/knx_stack/decode/knxnet_ip/tunneling/req.py
index 14c48ee..93c8ea9 100644
--- a/knx_stack/decode/knxnet_ip/tunneling/req.py
+++ b/knx_stack/decode/knxnet_ip/tunneling/req.py
@@ -34,7 +34,7 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[Msg]:
         if result_tmp:
             result.extend(result_tmp)
     else:
-        if state.sequence_counter_remote == (sequence_counter + 1):
+        if state.sequence_counter_remote == (sequence_counter + 1) % 256:
             result.append(
                 Msg(sequence_counter=sequence_counter, status=ErrorCodes.E_NO_ERROR)
             )
-- 
2.43.0


From 91b44e7d0215ce63e035b6f42959965d4eaa046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 04/41] fix: the ack of a retransmitted tunnelling request
 carries the request's own sequence counter

---
 knx_stack/encode/knxnet_ip/tunneling/ack.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/knx_stack/encode/knxnet_ip/tunneling/ack.py b/knx_stack/encode/knxnet_ip/tunneling/ack.py
index c509af6..39f4583 100644
--- a/knx_stack/encode/knxnet_ip/tunneling/ack.py
+++ b/knx_stack/encode/knxnet_ip/tunneling/ack.py
@@ -17,16 +17,19 @@ def encode(
     >>> bus_msg
     06100421000A04000000
     """
+    sequence_counter = state.sequence_counter_remote
+    if (msg.sequence_counter + 1) % 256 == state.sequence_counter_remote:
+        sequence_counter = msg.sequence_counter  # retransmission
     new_msg = NetMsg(Short(value=Services.TUNNELING_ACK.value).octects)
     new_msg += NetMsg(
         Short(value=connection_header.CONNECTION_HEADER_LEN + HEADER_SIZE_10).octects
     )
     new_msg += connection_header.create(
-        state, status=msg.status, sequence_counter=state.sequence_counter_remote
+        state, status=msg.status, sequence_counter=sequence_counter
     )
     logging.getLogger(__name__).info(
         "knxnet_ip.tunneling.encode.ack with sequence counter={}".format(
-            state.sequence_counter_remote
+            sequence_counter
         )
     )
     if msg.sequence_counter == state.sequence_counter_remote:
-- 
2.43.0


From 2e8495c4c2245911557134d18cc2138116658215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 05/41] fix: decoding a tunnelling ack through decode_msg
 returns a list of messages

---
 knx_stack/decode/knxnet_ip/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/header.py b/knx_stack/decode/knxnet_ip/header.py
index 1bba136..6ac655b 100644
--- a/knx_stack/decode/knxnet_ip/header.py
+++ b/knx_stack/decode/knxnet_ip/header.py
@@ -37,7 +37,7 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTupl
         elif service.value == Services.TUNNELING_REQUEST:
             result = tunneling.req.decode(state, body)
         elif service.value == Services.TUNNELING_ACK:
-            result = tunneling.ack.decode(state, body)
+            result, _ = tunneling.ack.decode(state, body)
         else:
             logging.getLogger(__name__).error(
                 "Unknown knxnet_ip service value %d" % service.value
-- 
2.43.0


From b088c05210f339f91c24757c426dee79e81718e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 06/41] fix: decoding a group frame which is not a T_Data_Group
 PDU returns an empty list

---
 knx_stack/decode/layer/network/n_data_group/con.py | 4 +++-
 knx_stack/decode/layer/network/n_data_group/ind.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/knx_stack/decode/layer/network/n_data_group/con.py b/knx_stack/decode/layer/network/n_data_group/con.py
index db7cd2c..d5a0b69 100644
--- a/knx_stack/decode/layer/network/n_data_group/con.py
+++ b/knx_stack/decode/layer/network/n_data_group/con.py
@@ -4,5 +4,7 @@ from knx_stack.decode.layer.transport.t_data_group import con
 
 
 def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
+    result = []
     if state.ldata.nsdu == NSDU.T_Data_Group_PDU:
-        return con.decode(state, msg)
+        result = con.decode(state, msg)
+    return result
diff --git a/knx_stack/decode/layer/network/n_data_group/ind.py b/knx_stack/decode/layer/network/n_data_group/ind.py
index 95467a0..089dba8 100644
--- a/knx_stack/decode/layer/network/n_data_group/ind.py
+++ b/knx_stack/decode/layer/network/n_data_group/ind.py
@@ -4,5 +4,7 @@ from knx_stack.decode.layer.transport.t_data_group import ind
 
 
 def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
+    result = []
     if state.ldata.nsdu == NSDU.T_Data_Group_PDU:
-        return ind.decode(state, msg)
+        result = ind.decode(state, msg)
+    return result
-- 
2.43.0


From c0e8904a6dec352dbc508d65339283ab5bc2dbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 07/41] fix: property confirmations are matched against the
 individual address, not against group addresses

---
 knx_stack/decode/layer/transport/t_data_individual/con.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/knx_stack/decode/layer/transport/t_data_individual/con.py b/knx_stack/decode/layer/transport/t_data_individual/con.py
index 0cdb11c..ffb1e4b 100644
--- a/knx_stack/decode/layer/transport/t_data_individual/con.py
+++ b/knx_stack/decode/layer/transport/t_data_individual/con.py
@@ -5,9 +5,8 @@ from knx_stack.decode.layer import application
 
 def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
     logger = logging.getLogger(__name__)
-    tsap = state.get_tsap()
     result = []
-    if tsap == 0:
+    if state.ldata.destination == state.individual_address.free_style:
         if state.ldata.apci == 0x3D5:
             result = application.a_property_value_read.con.decode(state, msg)
         elif state.ldata.apci == 0x3D6:
-- 
2.43.0


From bed33e4b9b664830fa1b1c1dbcb35acd4932fd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 08/41] fix: group value write indications are framed for the
 state's medium

---
 knx_stack/encode/cemi/ldata/ind.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/knx_stack/encode/cemi/ldata/ind.py b/knx_stack/encode/cemi/ldata/ind.py
index 719c12f..d2fa917 100644
--- a/knx_stack/encode/cemi/ldata/ind.py
+++ b/knx_stack/encode/cemi/ldata/ind.py
@@ -1,5 +1,6 @@
-from knx_stack import Octect, Msg
+from knx_stack import Medium, Octect, Msg
 from knx_stack.definition.cemi import MessageCode
+from knx_stack.encode.knxnet_ip import tunneling
 from knx_stack.encode.usb_hid import emi_id
 
 
@@ -7,5 +8,10 @@ def encode(state: "knx_stack.State", msg: "knx_stack.Msg") -> "knx_stack.Msg":
     message_code = Octect(value=MessageCode.L_Data_ind)
     additional_info_length = Octect(value=0)
     new_msg = Msg([message_code, additional_info_length] + msg)
-    final_msg = emi_id.encode(state, new_msg)
+    if state.medium == Medium.usb_hid:
+        final_msg = emi_id.encode(state, new_msg)
+    elif state.medium == Medium.knxnet_ip:
+        final_msg = tunneling.req.encode(state, new_msg)
+    else:
+        final_msg = new_msg
     return final_msg
-- 
2.43.0


From f608a04d253f58298c259c1a82497a43f44e2919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 09/41] fix: a group request for an ASAP without any address is
 refused instead of emitting a malformed frame

---
 knx_stack/encode/layer/network/n_data_group/encode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/knx_stack/encode/layer/network/n_data_group/encode.py b/knx_stack/encode/layer/network/n_data_group/encode.py
index b16d3e5..ad44be7 100644
--- a/knx_stack/encode/layer/network/n_data_group/encode.py
+++ b/knx_stack/encode/layer/network/n_data_group/encode.py
@@ -3,7 +3,10 @@ from knx_stack import Short, Octect, Msg
 
 def nl_encode(state: "knx_stack.State", msg: "knx_stack.Msg") -> "knx_stack.Msg":
     new_msg = msg
-    for address in state.get_addresses():
+    addresses = state.get_addresses()
+    if not addresses:
+        raise ValueError("No group address associated with asap %s" % state.asap)
+    for address in addresses:
         npdu_length = Octect(value=(len(msg) - 1))
         destination = Short(value=address.free_style)
         new_msg = Msg([destination.MSB, destination.LSB, npdu_length] + msg)
-- 
2.43.0


From 80165c3b94a2b9d4624bab905cdb168441219d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 10/41] fix: a connect response carrying an error and no HPAI
 is decoded

---
 knx_stack/decode/knxnet_ip/core/connect/res.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/core/connect/res.py b/knx_stack/decode/knxnet_ip/core/connect/res.py
index 4b423ed..be2936f 100644
--- a/knx_stack/decode/knxnet_ip/core/connect/res.py
+++ b/knx_stack/decode/knxnet_ip/core/connect/res.py
@@ -17,7 +17,10 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[Msg]:
     (size, body) = msg.short()
     (communication_channel_id, body) = body.octect()
     (status, body) = body.octect()
-    (ip, port, body) = body.HPAI()
+    if status.value == Status.E_NO_ERROR or body:
+        (ip, port, body) = body.HPAI()
+    else:
+        ip, port = None, None  # a refusal needs not to carry an HPAI
     if status.value == Status.E_NO_ERROR:
         (tunnel_connection, individual_address, body) = body.CRD()
         state.communication_channel_id = communication_channel_id.value
-- 
2.43.0


From 202b8796712c2ee796a5257803db3828fd0e2fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 11/41] fix: decoding does not fail formatting its own debug
 message

---
 knx_stack/decode/layer/transport/t_data_group/con.py      | 4 ++--
 knx_stack/decode/layer/transport/t_data_group/ind.py      | 4 ++--
 knx_stack/decode/layer/transport/t_data_individual/con.py | 4 ++--
 knx_stack/decode/layer/transport/t_data_individual/ind.py | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/knx_stack/decode/layer/transport/t_data_group/con.py b/knx_stack/decode/layer/transport/t_data_group/con.py
index 70a7132..6c2e66d 100644
--- a/knx_stack/decode/layer/transport/t_data_group/con.py
+++ b/knx_stack/decode/layer/transport/t_data_group/con.py
@@ -17,10 +17,10 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTupl
         s = "received msg {} {}".format(msg, state.ldata)
         try:
             logger.debug(
-                "{} {} asaps {}".format(s, result[0].dpt, [m.asap for m in result])
+                "%s %s asaps %s", s, result[0].dpt, [m.asap for m in result]
             )
         except (AttributeError, IndexError):
-            logger.debug("{} {}".format(s, result))
+            logger.debug("%s %s", s, result)
     else:
         logger.info("discarded msg {} {}".format(msg, state.ldata))
     return result
diff --git a/knx_stack/decode/layer/transport/t_data_group/ind.py b/knx_stack/decode/layer/transport/t_data_group/ind.py
index 951ad1b..b1f5d39 100644
--- a/knx_stack/decode/layer/transport/t_data_group/ind.py
+++ b/knx_stack/decode/layer/transport/t_data_group/ind.py
@@ -17,10 +17,10 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTupl
         s = "received msg {} {}".format(msg, state.ldata)
         try:
             logger.debug(
-                "{} {} asaps {}".format(s, result[0].dpt, [m.asap for m in result])
+                "%s %s asaps %s", s, result[0].dpt, [m.asap for m in result]
             )
         except (AttributeError, IndexError):
-            logger.debug("{} {}".format(s, result))
+            logger.debug("%s %s", s, result)
     else:
         logger.info("discarded msg {} {}".format(msg, state.ldata))
     return result
diff --git a/knx_stack/decode/layer/transport/t_data_individual/con.py b/knx_stack/decode/layer/transport/t_data_individual/con.py
index ffb1e4b..b091987 100644
--- a/knx_stack/decode/layer/transport/t_data_individual/con.py
+++ b/knx_stack/decode/layer/transport/t_data_individual/con.py
@@ -16,10 +16,10 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTupl
         s = "received msg {} {}".format(msg, state.ldata)
         try:
             logger.debug(
-                "{} {} asaps {}".format(s, result[0].dpt, [m.asap for m in result])
+                "%s %s asaps %s", s, result[0].dpt, [m.asap for m in result]
             )
         except (AttributeError, IndexError):
-            logger.debug("{} {}".format(s, result))
+            logger.debug("%s %s", s, result)
     else:
         logger.info("discarded msg {} {}".format(msg, state.ldata))
     return result
diff --git a/knx_stack/decode/layer/transport/t_data_individual/ind.py b/knx_stack/decode/layer/transport/t_data_individual/ind.py
index 781b3ab..70f94e0 100644
--- a/knx_stack/decode/layer/transport/t_data_individual/ind.py
+++ b/knx_stack/decode/layer/transport/t_data_individual/ind.py
@@ -16,10 +16,10 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTupl
         s = "received msg {} {}".format(msg, state.ldata)
         try:
             logger.debug(
-                "{} {} asaps {}".format(s, result[0].dpt, [m.asap for m in result])
+                "%s %s asaps %s", s, result[0].dpt, [m.asap for m in result]
             )
         except (AttributeError, IndexError):
-            logger.debug("{} {}".format(s, result))
+            logger.debug("%s %s", s, result)
     else:
         logger.info("discarded msg {} {}".format(msg, state.ldata))
     return result
-- 
2.43.0


From 162e27d135a6d88351458e07da4a045b129f346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 12/41] fix: DPT_Control_Dimming (3.007) is a four bits
 datapoint, it travels inside the APCI octet

---
 knx_stack/datapointtypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 086a41b..a264551 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -356,6 +356,8 @@ class DPT_Control_Dimming(Union, DPT):
     7
     """
 
+    length = DPT.Length.LESS_THAN_A_BYTE
+
     class Direction(IntEnum):
         down = (0x00,)
         up = (0x01,)
-- 
2.43.0


From db4a21767dcefa89b2f73928a5cba908ced9c794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 13/41] fix: adding an address already in the address table
 does not duplicate it

---
 knx_stack/definition/layer/network/address_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/definition/layer/network/address_table.py b/knx_stack/definition/layer/network/address_table.py
index c6454e4..34d196b 100644
--- a/knx_stack/definition/layer/network/address_table.py
+++ b/knx_stack/definition/layer/network/address_table.py
@@ -132,7 +132,7 @@ class AddressTable(object):
         :param address: a new *group address* to be inserted
         :return: a new AddressTable instance
         """
-        if address not in self._group_addresses or address != self._individual_address:
+        if address not in self._group_addresses:
             if len(self._group_addresses) >= self.max_size:
                 raise AddressTableException(
                     "Max entries %d, already written inside address table"
-- 
2.43.0


From b3446efdf94a47d78d8f88d2629a65dd74100f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 14/41] fix: the routing of an address to its ASAPs follows the
 address table

---
 .../layer/transport/association_table.py      | 23 +++++--------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index f032882..e0fd897 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -121,7 +121,6 @@ class AssociationTable(object):
     ):
         self._address_table = address_table
         self._asap_addresses = dict()
-        self._tsap_asaps = dict()
         self.associate(
             ASAP(0, "individual address"), [self._address_table.individual_address]
         )
@@ -145,13 +144,16 @@ class AssociationTable(object):
         return tsaps
 
     def get_asaps(self, tsap: int) -> Iterable["knx_stack.ASAP"]:
-        return self._tsap_asaps[tsap]
+        return self.get_asaps_from_address(self._address_table.get_address(tsap))
 
     def get_asaps_from_address(
         self, address: "knx_stack.GroupAddress"
     ) -> Iterable["knx_stack.ASAP"]:
-        tsap = self._address_table.get_tsap(address)
-        return self._tsap_asaps[tsap]
+        return [
+            asap
+            for asap, addresses in self._asap_addresses.items()
+            if address in addresses
+        ]
 
     @property
     def asaps(self):
@@ -170,15 +172,6 @@ class AssociationTable(object):
             addresses.append(self._address_table.get_address(tsap))
         return addresses
 
-    def _rebuild_tsap_asaps(self):
-        self._tsap_asaps = dict()
-        for asap_, addresses in self._asap_addresses.items():
-            for address_ in addresses:
-                tsap = self._address_table.get_tsap(address_)
-                if tsap not in self._tsap_asaps:
-                    self._tsap_asaps[tsap] = list()
-                self._tsap_asaps[tsap].append(asap_)
-
     def associate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
@@ -194,8 +187,6 @@ class AssociationTable(object):
         for address in addresses:
             self._asap_addresses[asap].append(address)
 
-        self._rebuild_tsap_asaps()
-
     def disassociate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
@@ -204,8 +195,6 @@ class AssociationTable(object):
                 self._address_table.remove(address)
             self._asap_addresses[asap].remove(address)
 
-        self._rebuild_tsap_asaps()
-
     def __repr__(self, *args, **kwargs):
         s = "AssociationTable: asap -> addresses\n"
         for asap, addresses in self._asap_addresses.items():
-- 
2.43.0


From 99dc79ff4bc172892863bbaab4f2169deaeec06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 15/41] fix: an association which does not fit in the address
 table leaves the tables as they were

---
 .../layer/transport/association_table.py      | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index e0fd897..6d765a4 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -175,12 +175,20 @@ class AssociationTable(object):
     def associate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
-        for address in addresses:
-            if (
-                address not in self._address_table.addresses
-                and address is not self.individual_address
-            ):
-                self._address_table.add(address)
+        addresses = list(addresses)
+        added = list()
+        try:
+            for address in addresses:
+                if (
+                    address not in self._address_table.addresses
+                    and address is not self.individual_address
+                ):
+                    self._address_table.add(address)
+                    added.append(address)
+        except Exception:
+            for address in added:
+                self._address_table.remove(address)
+            raise
 
         if asap not in self._asap_addresses:
             self._asap_addresses[asap] = list()
-- 
2.43.0


From d2ff8134284df01dbc7a1eb5658a83298e16ffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 16/41] fix: associating twice the same address to an ASAP does
 not duplicate the association

---
 knx_stack/definition/layer/transport/association_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index 6d765a4..3ee9b97 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -193,7 +193,8 @@ class AssociationTable(object):
         if asap not in self._asap_addresses:
             self._asap_addresses[asap] = list()
         for address in addresses:
-            self._asap_addresses[asap].append(address)
+            if address not in self._asap_addresses[asap]:
+                self._asap_addresses[asap].append(address)
 
     def disassociate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
-- 
2.43.0


From eaaedba6262997aae57001205b99d02320badc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 17/41] fix: disassociating an address does not cut off the
 other ASAPs using it, and changes nothing when it fails

---
 .../layer/transport/association_table.py         | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index 3ee9b97..2198f38 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -172,6 +172,13 @@ class AssociationTable(object):
             addresses.append(self._address_table.get_address(tsap))
         return addresses
 
+    def _in_use(self, address: "knx_stack.GroupAddress") -> bool:
+        return any(
+            address == used and used is not self.individual_address
+            for addresses in self._asap_addresses.values()
+            for used in addresses
+        )
+
     def associate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
@@ -199,10 +206,15 @@ class AssociationTable(object):
     def disassociate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
+        addresses = list(addresses)
+        remaining = list(self._asap_addresses[asap])
+        for address in addresses:
+            remaining.remove(address)
+        self._asap_addresses[asap] = remaining
+
         for address in addresses:
-            if address != self.individual_address:
+            if address in self._address_table.addresses and not self._in_use(address):
                 self._address_table.remove(address)
-            self._asap_addresses[asap].remove(address)
 
     def __repr__(self, *args, **kwargs):
         s = "AssociationTable: asap -> addresses\n"
-- 
2.43.0


From 2e9d09f01597763d94e889f5bc762e40873df532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 18/41] fix: get_free_asap_value never returns a value in use,
 whatever the order of the associations

---
 knx_stack/definition/layer/transport/association_table.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index 2198f38..be51f02 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -160,11 +160,11 @@ class AssociationTable(object):
         return self._asap_addresses.keys()
 
     def get_free_asap_value(self):
-        asaps = self._asap_addresses.keys()
-        for e, asap in enumerate(asaps):
-            if e != asap.value:
+        values = sorted(asap.value for asap in self._asap_addresses.keys())
+        for e, value in enumerate(values):
+            if e != value:
                 return e
-        return len(asaps)
+        return len(values)
 
     def get_addresses(self, tsaps: Iterable[int]):
         addresses = list()
-- 
2.43.0


From accf393552c9bea6b978e97fa6cb366754ec6e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 19/41] fix: the tunneling client does not take a refused
 connection for an established one

---
 knx_stack/client/knxnet_ip.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/knx_stack/client/knxnet_ip.py b/knx_stack/client/knxnet_ip.py
index 439434b..f04d69c 100644
--- a/knx_stack/client/knxnet_ip.py
+++ b/knx_stack/client/knxnet_ip.py
@@ -115,7 +115,10 @@ class Tunneling(asyncio.DatagramProtocol):
             self._state, knx_stack.knxnet_ip.Msg.make_from_str(data.hex())
         )
         for res in responses:
-            if isinstance(res, knx_stack.knxnet_ip.core.connect.res.Msg):
+            if (
+                isinstance(res, knx_stack.knxnet_ip.core.connect.res.Msg)
+                and res.status == knx_stack.knxnet_ip.ErrorCodes.E_NO_ERROR
+            ):
                 self._state.sequence_counter_remote = 0
                 connectionstate_msg = knx_stack.knxnet_ip.core.connectionstate.req.Msg(
                     addr_control_endpoint=self._local_addr,
-- 
2.43.0


From 8acdafef1340bde4f21cabc1d78934457b3534d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 20/41] fix: both the tunneling sequence counters restart with
 a new connection

---
 knx_stack/client/knxnet_ip.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knx_stack/client/knxnet_ip.py b/knx_stack/client/knxnet_ip.py
index f04d69c..d7506ed 100644
--- a/knx_stack/client/knxnet_ip.py
+++ b/knx_stack/client/knxnet_ip.py
@@ -120,6 +120,7 @@ class Tunneling(asyncio.DatagramProtocol):
                 and res.status == knx_stack.knxnet_ip.ErrorCodes.E_NO_ERROR
             ):
                 self._state.sequence_counter_remote = 0
+                self._state.sequence_counter_local = 0
                 connectionstate_msg = knx_stack.knxnet_ip.core.connectionstate.req.Msg(
                     addr_control_endpoint=self._local_addr,
                     port_control_endpoint=self._local_port,
-- 
2.43.0


From 875f0128f5c22d68f20aca9eb677cb28b684b905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 21/41] fix: the discovery client takes its address from the
 first command line argument

---
 knx_stack/client/knxnet_ip_discovery.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/knx_stack/client/knxnet_ip_discovery.py b/knx_stack/client/knxnet_ip_discovery.py
index 6def8fb..7ceec73 100644
--- a/knx_stack/client/knxnet_ip_discovery.py
+++ b/knx_stack/client/knxnet_ip_discovery.py
@@ -169,12 +169,12 @@ if __name__ == "__main__":
 
     loop = asyncio.get_event_loop()
 
-    if len(sys.argv):
+    if len(sys.argv) > 1:
         transport1, _ = loop.run_until_complete(
-            loop.create_task(listen_discovery_responses(sys.argv[0], 5544))
+            loop.create_task(listen_discovery_responses(sys.argv[1], 5544))
         )
         transport2, _ = loop.run_until_complete(
-            loop.create_task(send_discovery_request(sys.argv[0], 5544))
+            loop.create_task(send_discovery_request(sys.argv[1], 5544))
         )
 
     try:
-- 
2.43.0


From 4df70bd925e4602f8ac01706c58c45b3cf20b124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 22/41] fix: the usb hid client keeps reading after a line it
 can not decode

---
 knx_stack/client/usbhid.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/knx_stack/client/usbhid.py b/knx_stack/client/usbhid.py
index 5d7e748..7e235bc 100644
--- a/knx_stack/client/usbhid.py
+++ b/knx_stack/client/usbhid.py
@@ -84,18 +84,21 @@ class Client(object):
         self.loop.stop()
 
     async def _knx_read(self):
-        while True:
+        while not self.rsock.at_eof():
             msg = await self._read()
-            octects_msg = knx_stack.Msg.make_from_str(msg)
-            data = knx_stack.decode_msg(self._state, octects_msg)
-            self.logger.error("read {}".format(data))
+            try:
+                octects_msg = knx_stack.Msg.make_from_str(msg)
+                data = knx_stack.decode_msg(self._state, octects_msg)
+                self.logger.error("read {}".format(data))
+            except Exception as e:
+                self.logger.error("discarded {} {}".format(msg, repr(e)))
 
     def _write(self, msg):
         self.wsock.write(msg.encode())
 
     async def _read(self):
         msg = await self.rsock.readline()
-        return msg.decode()[0:-1]
+        return msg.decode(errors="replace")[0:-1]
 
     def run(self):
         self.loop.run_forever()
-- 
2.43.0


From 2bf370f12000734b37bfb5bc03519af369b9e7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 23/41] fix: the daemon writes to the bus only packets it has
 received, whole and zero padded

---
 daemon/usbhid.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 303f34a..2e1294d 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -1,3 +1,4 @@
+#include <ctype.h>
 #include <fcntl.h>
 #include <stdio.h>
 #include <errno.h>
@@ -129,7 +130,7 @@ void init_sockaddr (struct sockaddr_in *name,
 
 int read_from_client(int filedes, unsigned char *packet) {
 	int nbytes, i;
-	char buffer[KNXHIDPACKETLEN * 2 + 1];
+	char buffer[KNXHIDPACKETLEN * 2 + 2];
 
 	nbytes = read(filedes, buffer, KNXHIDPACKETLEN * 2 + 1);
 	if (nbytes < 0) {
@@ -138,13 +139,20 @@ int read_from_client(int filedes, unsigned char *packet) {
 	} else if (nbytes == 0)
 		return -1;
 	else {
-		if (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r')
+		if (nbytes > 0 && (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r'))
 			nbytes--;
-		if (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r')
+		if (nbytes > 0 && (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r'))
 			nbytes--;
-		if ((nbytes % 2) != 0) {
+		buffer[nbytes] = '\0';
+		if ((nbytes % 2) != 0 || nbytes > KNXHIDPACKETLEN * 2) {
 			return 0;
 		}
+		for (i = 0; i < nbytes; i++) {
+			if (!isxdigit((unsigned char) buffer[i])) {
+				return 0;
+			}
+		}
+		memset(packet, 0, KNXHIDPACKETLEN);
 		for (i = 0; i < nbytes / 2; i++) {
 			if (sscanf(&buffer[i * 2], "%2hhx", &packet[i]) != 1) {
 				return 0;
@@ -263,9 +271,10 @@ int main(int argc, char *argv[]) {
 						}
 					}
 				} else {
-					if (read_from_client(i, packet) >= 0) {
+					int l = read_from_client(i, packet);
+					if (l > 0) {
 						write_to_knx_cemi(fd_cemi, packet);
-					} else {
+					} else if (l < 0) {
 						FD_CLR(i, &active_fd_set);
 						for (j = 0; j < MAX_CLIENTS; j++) {
 							if (client_fds[j] == i) {
-- 
2.43.0


From 9871d9134e1ce20f9e045685eb0b01e34854641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 24/41] fix: the daemon survives a client closing while a
 message is sent to it

---
 daemon/usbhid.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 2e1294d..ec4c66b 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -2,6 +2,7 @@
 #include <fcntl.h>
 #include <stdio.h>
 #include <errno.h>
+#include <signal.h>
 #include <getopt.h>
 #include <stdlib.h>
 #include <unistd.h>
@@ -217,6 +218,8 @@ int main(int argc, char *argv[]) {
 		}
 	}
 
+	signal(SIGPIPE, SIG_IGN);
+
 	sock = make_socket((uint16_t) DEFAULT_PORT);
 	if (listen(sock, 1) < 0) {
 		perror("listen");
-- 
2.43.0


From b3b1c0546d4cb2eb31b29494a3888b2f71bb399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 25/41] fix: the daemon's -d option takes the hidraw device

---
 daemon/usbhid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index ec4c66b..5962bad 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -178,7 +178,7 @@ int write_to_client(int filedes, unsigned char *packet, int len) {
 int main(int argc, char *argv[]) {
 	fd_set active_fd_set, read_fd_set;
 	struct sockaddr_in clientname;
-	static char *shortopts = "hdpi";
+	static char *shortopts = "hd:p:s:";
 	static struct option longopts[] = { { "help", 0, NULL, 'h' }, { "host", 1,
 			NULL, 's' }, { "port", 1, NULL, 'p' },
 			{ "dev-hidraw", 1, NULL, 'd' }, { 0, 0, 0, 0 }, };
-- 
2.43.0


From 490fb9bff752b61a460494c6e48b34fa32376d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 26/41] fix: the daemon does not accept more clients than it
 can serve

---
 daemon/usbhid.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 5962bad..a600704 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -259,13 +259,16 @@ int main(int argc, char *argv[]) {
 					fprintf(stderr, "Server: connect from host %d, port %hd.\n",
 							inet_ntoa(clientname.sin_addr),
 							ntohs(clientname.sin_port));
-					FD_SET(new_client, &active_fd_set);
 					for (j = 0; j < MAX_CLIENTS; j++) {
 						if (client_fds[j] == -1) {
 							client_fds[j] = new_client;
 							break;
 						}
 					}
+					if (j < MAX_CLIENTS)
+						FD_SET(new_client, &active_fd_set);
+					else
+						close(new_client);
 				} else if (i == fd_cemi) {
 					int l = read_from_knx_cemi(fd_cemi, packet);
 					for (j = 0; j < MAX_CLIENTS; j++) {
-- 
2.43.0


From 5dffaa8d515185590e0329c3e7f3965e798422fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 27/41] fix: the daemon reassembles the clients' lines, however
 TCP splits or joins them

---
 daemon/usbhid.c | 87 +++++++++++++++++++++++++++++++------------------
 1 file changed, 55 insertions(+), 32 deletions(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index a600704..cb86b62 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -22,6 +22,15 @@
 #define MAXMSG 512
 
 
+/* what has been received of the line a client is sending */
+struct client_line {
+	char text[KNXHIDPACKETLEN * 2 + 2];
+	int len;
+};
+
+static struct client_line client_lines[FD_SETSIZE];
+
+
 int open_knx_cemi(char *hidraw);
 int read_from_knx_cemi(int fd, unsigned char *packet);
 int write_to_knx_cemi(int fd, unsigned char *packet);
@@ -30,7 +39,8 @@ int make_socket(uint16_t port);
 void init_sockaddr (struct sockaddr_in *name,
 		const char *hostname,
 		uint16_t port);
-int read_from_client(int filedes, unsigned char *packet);
+int parse_line(char *line, int nbytes, unsigned char *packet);
+int read_from_client(int filedes, int fd_cemi, unsigned char *packet);
 int write_to_client(int filedes, unsigned char *packet, int len);
 
 int open_knx_cemi(char *hidraw) {
@@ -129,39 +139,55 @@ void init_sockaddr (struct sockaddr_in *name,
 	name->sin_addr = *(struct in_addr *)hostinfo->h_addr;
 }
 
-int read_from_client(int filedes, unsigned char *packet) {
-	int nbytes, i;
-	char buffer[KNXHIDPACKETLEN * 2 + 2];
+int parse_line(char *line, int nbytes, unsigned char *packet) {
+	int i;
 
-	nbytes = read(filedes, buffer, KNXHIDPACKETLEN * 2 + 1);
-	if (nbytes < 0) {
-		perror("read");
-		return -1;
-	} else if (nbytes == 0)
-		return -1;
-	else {
-		if (nbytes > 0 && (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r'))
-			nbytes--;
-		if (nbytes > 0 && (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r'))
-			nbytes--;
-		buffer[nbytes] = '\0';
-		if ((nbytes % 2) != 0 || nbytes > KNXHIDPACKETLEN * 2) {
+	line[nbytes] = '\0';
+	if ((nbytes % 2) != 0 || nbytes > KNXHIDPACKETLEN * 2) {
+		return 0;
+	}
+	for (i = 0; i < nbytes; i++) {
+		if (!isxdigit((unsigned char) line[i])) {
 			return 0;
 		}
-		for (i = 0; i < nbytes; i++) {
-			if (!isxdigit((unsigned char) buffer[i])) {
-				return 0;
-			}
+	}
+	memset(packet, 0, KNXHIDPACKETLEN);
+	for (i = 0; i < nbytes / 2; i++) {
+		if (sscanf(&line[i * 2], "%2hhx", &packet[i]) != 1) {
+			return 0;
 		}
-		memset(packet, 0, KNXHIDPACKETLEN);
-		for (i = 0; i < nbytes / 2; i++) {
-			if (sscanf(&buffer[i * 2], "%2hhx", &packet[i]) != 1) {
-				return 0;
-			}
+	}
+	fprintf(stderr, "Server: got message %s len %d\n", line, nbytes);
+	return i;
+}
+
+int read_from_client(int filedes, int fd_cemi, unsigned char *packet) {
+	struct client_line *line = &client_lines[filedes];
+	int nbytes, i;
+	char buffer[MAXMSG];
+
+	nbytes = read(filedes, buffer, MAXMSG);
+	if (nbytes < 0)
+		perror("read");
+	for (i = 0; i < nbytes; i++) {
+		if (buffer[i] != '\n' && buffer[i] != '\r') {
+			/* a line too long keeps one char more than the longest good one */
+			if (line->len <= KNXHIDPACKETLEN * 2)
+				line->text[line->len++] = buffer[i];
+		} else {
+			if (parse_line(line->text, line->len, packet) > 0)
+				write_to_knx_cemi(fd_cemi, packet);
+			line->len = 0;
 		}
-		fprintf(stderr, "Server: got message %s len %d\n", buffer, nbytes);
-		return i;
 	}
+	if (nbytes <= 0) {
+		/* closing: the last line may miss its end */
+		if (nbytes == 0 && parse_line(line->text, line->len, packet) > 0)
+			write_to_knx_cemi(fd_cemi, packet);
+		line->len = 0;
+		return -1;
+	}
+	return nbytes;
 }
 
 int write_to_client(int filedes, unsigned char *packet, int len) {
@@ -277,10 +303,7 @@ int main(int argc, char *argv[]) {
 						}
 					}
 				} else {
-					int l = read_from_client(i, packet);
-					if (l > 0) {
-						write_to_knx_cemi(fd_cemi, packet);
-					} else if (l < 0) {
+					if (read_from_client(i, fd_cemi, packet) < 0) {
 						FD_CLR(i, &active_fd_set);
 						for (j = 0; j < MAX_CLIENTS; j++) {
 							if (client_fds[j] == i) {
-- 
2.43.0


From 8c8f55773eba949d8123acdf4e4998a3aded3bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 28/41] fix: the daemon lets go a client which does not read,
 instead of stopping for it

---
 daemon/usbhid.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index cb86b62..7790151 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -198,7 +198,9 @@ int write_to_client(int filedes, unsigned char *packet, int len) {
 		sprintf(&buffer[i * 2], "%02x", packet[i]);
 	}
 	buffer[len * 2] = '\n';
-	write(filedes, buffer, len * 2 + 1);
+	/* a client which does not read must not stop the others: let it go */
+	if (send(filedes, buffer, len * 2 + 1, MSG_DONTWAIT) != len * 2 + 1)
+		shutdown(filedes, SHUT_RDWR);
 }
 
 int main(int argc, char *argv[]) {
-- 
2.43.0


From 275275a0f920e6c4183209e829c0cb2878671195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:43 +0000
Subject: [PATCH 29/41] fix: the associations follow a change of the individual
 address

After setting the individual address of the address table the ASAP of the
individual address kept leading to the old one: its lookups gave no
connection, and a group address with the number of the old individual
address was never released.
---
 .../layer/transport/association_table.py        | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index be51f02..eb7951e 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -120,7 +120,8 @@ class AssociationTable(object):
         associations: Iterable["Association"] = None,
     ):
         self._address_table = address_table
-        self._asap_addresses = dict()
+        self._associated_addresses = dict()
+        self._associated_individual_address = address_table.individual_address
         self.associate(
             ASAP(0, "individual address"), [self._address_table.individual_address]
         )
@@ -128,6 +129,20 @@ class AssociationTable(object):
             for association in associations:
                 self.associate(association.asap, [association.address])
 
+    @property
+    def _asap_addresses(self):
+        """
+        The individual address of the address table may be changed at any time,
+        the associations have to follow it.
+        """
+        old = self._associated_individual_address
+        new = self._address_table.individual_address
+        if new is not old:
+            for addresses in self._associated_addresses.values():
+                addresses[:] = [new if address is old else address for address in addresses]
+            self._associated_individual_address = new
+        return self._associated_addresses
+
     @property
     def individual_address(self) -> "knx_stack.Address":
         return self._address_table.individual_address
-- 
2.43.0


From b1327237fba5af87b1afd8c2fa0146192445faab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:08 +0000
Subject: [PATCH 30/41] fix: T_Connect and T_Disconnect are told from
 T_Data_Connected

---
 knx_stack/definition/layer/link/ldata.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/knx_stack/definition/layer/link/ldata.py b/knx_stack/definition/layer/link/ldata.py
index f236f25..fd441bb 100644
--- a/knx_stack/definition/layer/link/ldata.py
+++ b/knx_stack/definition/layer/link/ldata.py
@@ -257,12 +257,6 @@ class L_Data(LittleEndianStructure):
             and self._tpci.bits.numbered == 1
         ):
             pdu = NSDU.T_Data_Connected_PDU
-        elif (
-            self._cntrl2.bits.address_type == AddressType.individual
-            and self._tpci.bits.control_flag == 1
-            and self._tpci.bits.numbered == 0
-        ):
-            pdu = NSDU.T_Data_Connected_PDU
         elif (
             self._cntrl2.bits.address_type == AddressType.individual
             and self._tpci.bits.control_flag == 1
@@ -319,10 +313,6 @@ class L_Data(LittleEndianStructure):
             self._tpci.bits.control_flag = 0
             self._tpci.bits.numbered = 1
 
-        elif pdu == NSDU.T_Data_Connected_PDU:
-            self._tpci.bits.control_flag = 1
-            self._tpci.bits.numbered = 0
-
         elif pdu == NSDU.T_Connect_PDU:
             self._tpci.bits.control_flag = 1
             self._tpci.bits.numbered = 0
-- 
2.43.0


From e98f9385c08795d5f0a9dd2c2bb3f33f8e94c215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:30 +0000
Subject: [PATCH 31/41] fix: transport control frames, which have no APCI, are
 decoded

---
 knx_stack/definition/layer/link/ldata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/knx_stack/definition/layer/link/ldata.py b/knx_stack/definition/layer/link/ldata.py
index fd441bb..f2cb3b1 100644
--- a/knx_stack/definition/layer/link/ldata.py
+++ b/knx_stack/definition/layer/link/ldata.py
@@ -348,6 +348,9 @@ class L_Data(LittleEndianStructure):
         l_data._npdu_length = npdu_length.value
         (tpci, body) = body.octect()
         l_data._tpci = TPCI(value=tpci.value)
+        if l_data.connected and not body:
+            # a transport control PDU (connect, disconnect, ACK, NACK) has no APCI
+            return l_data, body
         (apci, body) = body.octect()
         l_data._apci = APCI(value=apci.value)
 
-- 
2.43.0


From f0d7aa1d4558761f953589e83536da69a49a69b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:53 +0000
Subject: [PATCH 32/41] fix: a property service without its header is passed
 over

---
 knx_stack/decode/layer/application/a_property_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knx_stack/decode/layer/application/a_property_value.py b/knx_stack/decode/layer/application/a_property_value.py
index 6fd4654..b5c4f7d 100644
--- a/knx_stack/decode/layer/application/a_property_value.py
+++ b/knx_stack/decode/layer/application/a_property_value.py
@@ -14,6 +14,8 @@ class PropertyData(NamedTuple):
 
 def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[PropertyData]:
     results = []
+    if len(msg) < 4:  # not even a property service header
+        return results
     propety_header, data = msg.long()
     header = PropertyServiceHeader()
     header.value = propety_header.value
-- 
2.43.0


From ad331d87f192cba02edd14fc150fae41fa99ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 33/41] fix: the daemon listens on the port it is asked for

---
 daemon/usbhid.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 7790151..f70ddfb 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -211,7 +211,7 @@ int main(int argc, char *argv[]) {
 			NULL, 's' }, { "port", 1, NULL, 'p' },
 			{ "dev-hidraw", 1, NULL, 'd' }, { 0, 0, 0, 0 }, };
 	char *dev_hidraw = "/dev/hidraw1";
-	char *port = "8765";
+	int port = DEFAULT_PORT;
 	char *host = "172.20.35.81";
 	char *packet;
 	size_t size;
@@ -229,6 +229,8 @@ int main(int argc, char *argv[]) {
 			printf("Usage: daemon [OPTION]...\n");
 			printf(
 					"-d, --dev-hidraw\t\t\tThe hidraw device (as /dev/hidraw2) \n");
+			printf("-p, --port\t\t\tThe port to listen on (%d by default) \n",
+					DEFAULT_PORT);
 			exit(0);
 		}
 		case 'd': {
@@ -236,7 +238,7 @@ int main(int argc, char *argv[]) {
 			break;
 		}
 		case 'p': {
-			port = optarg;
+			port = atoi(optarg);
 			break;
 		}
 		case 's': {
@@ -248,7 +250,7 @@ int main(int argc, char *argv[]) {
 
 	signal(SIGPIPE, SIG_IGN);
 
-	sock = make_socket((uint16_t) DEFAULT_PORT);
+	sock = make_socket((uint16_t) port);
 	if (listen(sock, 1) < 0) {
 		perror("listen");
 		exit(EXIT_FAILURE);
-- 
2.43.0


From 999f000a66686d4c179af37bad2804e4f9fa3edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:09 +0000
Subject: [PATCH 34/41] fix: an address table is made without duplicates and
 within its size

The constructor took any list: an address given twice was entered twice
(and stayed when removed once), and more addresses than the maximum size
were accepted, while add() refuses both.
---
 knx_stack/definition/layer/network/address_table.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/knx_stack/definition/layer/network/address_table.py b/knx_stack/definition/layer/network/address_table.py
index 34d196b..0a1b414 100644
--- a/knx_stack/definition/layer/network/address_table.py
+++ b/knx_stack/definition/layer/network/address_table.py
@@ -87,8 +87,9 @@ class AddressTable(object):
         """
         self._max_size = max_size
         self._individual_address = ia
-        self._group_addresses = list(addresses)
-        self._group_addresses.sort(key=lambda group_address: group_address.free_style)
+        self._group_addresses = list()
+        for address in addresses:
+            self.add(address)
 
     @property
     def individual_address(self) -> "knx_stack.Address":
-- 
2.43.0


From e819c1e91f40a0582db5bb148e07cce581d46b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:16 +0000
Subject: [PATCH 35/41] fix: the USB client stopped reading after too long a
 line

---
 knx_stack/client/usbhid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/knx_stack/client/usbhid.py b/knx_stack/client/usbhid.py
index 7e235bc..49ed183 100644
--- a/knx_stack/client/usbhid.py
+++ b/knx_stack/client/usbhid.py
@@ -85,7 +85,11 @@ class Client(object):
 
     async def _knx_read(self):
         while not self.rsock.at_eof():
-            msg = await self._read()
+            try:
+                msg = await self._read()
+            except ValueError as e:
+                self.logger.error("discarded a line {}".format(repr(e)))
+                continue
             try:
                 octects_msg = knx_stack.Msg.make_from_str(msg)
                 data = knx_stack.decode_msg(self._state, octects_msg)
-- 
2.43.0


From 8d6ee8e9a8c8d221ff1fc1a12c9cb841e4b8a557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:36 +0000
Subject: [PATCH 36/41] fix: the USB client hung after a message which can not
 be sent

---
 knx_stack/client/usbhid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/knx_stack/client/usbhid.py b/knx_stack/client/usbhid.py
index 49ed183..89f9a7d 100644
--- a/knx_stack/client/usbhid.py
+++ b/knx_stack/client/usbhid.py
@@ -77,7 +77,11 @@ class Client(object):
 
     async def _knx_write(self, msgs):
         for msg in msgs:
-            octect_msg = knx_stack.encode_msg(self._state, msg)
+            try:
+                octect_msg = knx_stack.encode_msg(self._state, msg)
+            except Exception as e:
+                self.logger.error("not written {} {}".format(msg, repr(e)))
+                continue
             self._write(str(octect_msg) + "\n")
             self.logger.error("written {}".format(msg))
             await asyncio.sleep(3)
-- 
2.43.0


From 0786170c5d37168c5164091561a68a59a809163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:09 +0000
Subject: [PATCH 37/41] fix: a property write too long for a frame was sent
 with a wrong length

---
 knx_stack/encode/layer/network/n_data_individual/req.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/knx_stack/encode/layer/network/n_data_individual/req.py b/knx_stack/encode/layer/network/n_data_individual/req.py
index 9602457..280f018 100644
--- a/knx_stack/encode/layer/network/n_data_individual/req.py
+++ b/knx_stack/encode/layer/network/n_data_individual/req.py
@@ -1,8 +1,12 @@
 from knx_stack import Short, Octect, Msg
 from knx_stack.encode.layer.link import l_data
 
+MAX_NPDU_LENGTH = 254  # 255 is an escape code
+
 
 def encode(state: "knx_stack.State", msg: "knx_stack.Msg") -> "knx_stack.Msg":
+    if len(msg) - 1 > MAX_NPDU_LENGTH:
+        raise ValueError("{} octets do not fit in a frame".format(len(msg) - 1))
     npdu_length = Octect(value=(len(msg) - 1))
     destination = Short(value=state.individual_address.free_style)
     new_msg = Msg([destination.MSB, destination.LSB, npdu_length] + msg)
-- 
2.43.0


From db32ca090f619940e3bdc4425ff558df80294811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:09 +0000
Subject: [PATCH 38/41] fix: a frame too long for one USB report was sent with
 a wrong length

---
 knx_stack/encode/usb_hid/report_header/packet_info.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/knx_stack/encode/usb_hid/report_header/packet_info.py b/knx_stack/encode/usb_hid/report_header/packet_info.py
index 2fed6d7..ee8392d 100644
--- a/knx_stack/encode/usb_hid/report_header/packet_info.py
+++ b/knx_stack/encode/usb_hid/report_header/packet_info.py
@@ -2,8 +2,12 @@ from knx_stack import Msg, Octect, Nibbles
 from knx_stack.definition.usb_hid import PacketType
 from knx_stack.encode.usb_hid.report_header import report_identifier
 
+MAX_DATA_LENGTH = 61  # a report is of 64 octets, 3 of them its header
+
 
 def encode(state: "knx_stack.State", msg: "knx_stack.Msg") -> "knx_stack.Msg":
+    if len(msg) > MAX_DATA_LENGTH:
+        raise ValueError("{} octets do not fit in one report".format(len(msg)))
     sequence_number = 1
     packet_type = PacketType.allInOnePacket
     packet_info = Octect(Nibbles(high=sequence_number, low=packet_type))
-- 
2.43.0


From 9c353586e1afe609288b1810a8e126084cd48a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 39/41] fix: the helpers opening the IP clients' endpoints
 failed unless their module was run as a program

---
 knx_stack/client/knxnet_ip.py           | 2 +-
 knx_stack/client/knxnet_ip_discovery.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/knx_stack/client/knxnet_ip.py b/knx_stack/client/knxnet_ip.py
index d7506ed..78db6b8 100644
--- a/knx_stack/client/knxnet_ip.py
+++ b/knx_stack/client/knxnet_ip.py
@@ -157,7 +157,7 @@ async def start_tunneling(
     state: knx_stack.knxnet_ip.State,
     msgs: Iterable[NamedTuple],
 ):
-    transport, protocol = await loop.create_datagram_endpoint(
+    transport, protocol = await asyncio.get_event_loop().create_datagram_endpoint(
         lambda: Tunneling(
             local_addr, local_port, remote_addr, remote_port, state, msgs
         ),
diff --git a/knx_stack/client/knxnet_ip_discovery.py b/knx_stack/client/knxnet_ip_discovery.py
index 7ceec73..d358377 100644
--- a/knx_stack/client/knxnet_ip_discovery.py
+++ b/knx_stack/client/knxnet_ip_discovery.py
@@ -144,7 +144,7 @@ async def send_discovery_request(local_addr: str, local_port: int):
     sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
     sock.setblocking(False)
 
-    transport, protocol = await loop.create_datagram_endpoint(
+    transport, protocol = await asyncio.get_event_loop().create_datagram_endpoint(
         lambda: Request(local_addr, local_port),
         sock=sock,
     )
@@ -152,7 +152,7 @@ async def send_discovery_request(local_addr: str, local_port: int):
 
 
 async def listen_discovery_responses(local_addr: str, local_port: int):
-    transport, protocol = await loop.create_datagram_endpoint(
+    transport, protocol = await asyncio.get_event_loop().create_datagram_endpoint(
         lambda: Listen(),
         local_addr=(local_addr, local_port),
     )
-- 
2.43.0


From a01de1408f30bc15ce6f25b99cbf57f7d549bb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:07 +0000
Subject: [PATCH 40/41] fix: the daemon does not end when a client is lost
 while it is accepted

---
 daemon/usbhid.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index f70ddfb..1a6f1f8 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -42,6 +42,7 @@ void init_sockaddr (struct sockaddr_in *name,
 int parse_line(char *line, int nbytes, unsigned char *packet);
 int read_from_client(int filedes, int fd_cemi, unsigned char *packet);
 int write_to_client(int filedes, unsigned char *packet, int len);
+int client_lost(int error);
 
 int open_knx_cemi(char *hidraw) {
 	struct hidraw_devinfo info;
@@ -203,6 +204,23 @@ int write_to_client(int filedes, unsigned char *packet, int len) {
 		shutdown(filedes, SHUT_RDWR);
 }
 
+/* the errors accept() passes on from the network of the new client */
+int client_lost(int error) {
+	switch (error) {
+	case ECONNABORTED:
+	case ENETDOWN:
+	case EPROTO:
+	case ENOPROTOOPT:
+	case EHOSTDOWN:
+	case ENONET:
+	case EHOSTUNREACH:
+	case EOPNOTSUPP:
+	case ENETUNREACH:
+		return 1;
+	}
+	return 0;
+}
+
 int main(int argc, char *argv[]) {
 	fd_set active_fd_set, read_fd_set;
 	struct sockaddr_in clientname;
@@ -282,6 +300,11 @@ int main(int argc, char *argv[]) {
 					len = sizeof(clientname);
 					new_client = accept(sock, (struct sockaddr *) &clientname,
 							&len);
+					if (new_client < 0 && client_lost(errno)) {
+						/* it is gone before it was served: the others stay */
+						perror("accept");
+						continue;
+					}
 					if (new_client < 0) {
 						perror("accept");
 						exit(EXIT_FAILURE);
-- 
2.43.0


From 0d5b2d8ef926c7b287efc8346b88148bc4734d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:43 +0000
Subject: [PATCH 41/41] fix: DPT_Float_16.encode depended on, and changed, the
 decimal context of the application

With a context of less precision encoding a valid value raised
InvalidOperation, with another rounding it gave another value, and every
call left its flags in the context of the application. Fractions round
the same way, without a context.
---
 knx_stack/datapointtypes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index a264551..16b790a 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -2,7 +2,7 @@ from ctypes import c_uint8, c_uint32, c_uint16, c_float, LittleEndianStructure,
 from enum import IntEnum, Enum
 import inspect
 import math
-import decimal
+import fractions
 
 
 class DPT_Factory(object):
@@ -672,10 +672,10 @@ class DPT_Float_16(Union):
     def encode(self, value):
         sign = math.copysign(1, value)
 
-        decimal_mantissa = decimal.Decimal(
+        exact_mantissa = fractions.Fraction(
             value / 0.01
-        )  # used decimal to avoid different rounding
-        mantissa = abs(int(round(decimal_mantissa, 2)))  # two decimals
+        )  # used fraction to avoid different rounding
+        mantissa = abs(int(round(exact_mantissa, 2)))  # two decimals
 
         exp = 0
         max_mantissa_value = (1 << 11) - 1
-- 
2.43.0

