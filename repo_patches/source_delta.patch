From dd5a4bbf226f3fff2da89b2fd3d270bb79597a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:16 +0000
Subject: [PATCH 01/41] fix: wait for the rest of a fragment that was only
 partially received

next_event() unpacked whatever was in the receive buffer, so a transport
that delivers data at arbitrary boundaries caused a struct.error or a
truncated fragment to be accepted as a whole one.
---
 src/psrpcore/_base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index 0a453aa..a51e131 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -315,7 +315,12 @@ class RunspacePool(typing.Generic[T1]):
                 data buffer or `None` if not enough data has been received.
         """
         # First unpacks the raw receive buffer into messages.
-        while self._receive_buffer:
+        while len(self._receive_buffer) >= 21:
+            # The last 4 bytes of the fragment header is the length of the data that follows it.
+            fragment_length = 21 + int.from_bytes(self._receive_buffer[17:21], byteorder="big")
+            if len(self._receive_buffer) < fragment_length:
+                break
+
             fragment = unpack_fragment(self._receive_buffer)
             log.debug(
                 "Unpacked fragment - OID: %s, FID: %s, Start: %s, End: %s, Length: %s",
-- 
2.43.0


From 660ac90ab83974918753f58b466a8ed400f792ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:21 +0000
Subject: [PATCH 02/41] fix: do not mix messages of different stream types in
 one payload

data_to_send() labels the payload with the stream type of its first message
but appended messages for the same target that belong to another stream.
---
 src/psrpcore/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index a51e131..14dfb0b 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -260,8 +260,8 @@ class RunspacePool(typing.Generic[T1]):
                 stream_type = message.stream_type
                 pipeline_id = message.pipeline_id
 
-            # We can only combine fragments if they are for the same target.
-            if pipeline_id != message.pipeline_id:
+            # We can only combine fragments if they are for the same target and stream.
+            if pipeline_id != message.pipeline_id or stream_type != message.stream_type:
                 break
 
             if amount is None:
-- 
2.43.0


From ef61aba5bf9e2be0d0616208edcb47967c9bf85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:27 +0000
Subject: [PATCH 03/41] fix: keep every received message until it is processed

Received messages were kept by their object id until next_event() returned
them, a second message with the same id (a retransmission) silently replaced
one that was still waiting. A message that could not be unpacked also left
its fragments behind, the next copy of it would then always be refused.
---
 src/psrpcore/_base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index 14dfb0b..e89ca09 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -145,7 +145,7 @@ class RunspacePool(typing.Generic[T1]):
         self._incoming_fragments: typing.Dict[int, typing.List[bytearray]] = {}
 
         # Messages from combined fragments that have been received but not yet returned.
-        self._incoming_messages: typing.Dict[int, PSRPMessage] = {}
+        self._incoming_messages: typing.List[PSRPMessage] = []
 
     @property
     def max_runspaces(
@@ -340,17 +340,16 @@ class RunspacePool(typing.Generic[T1]):
             buffer.append(fragment.data)
 
             if fragment.end:
+                del self._incoming_fragments[fragment.object_id]
                 raw_message = unpack_message(bytearray(b"".join(buffer)))
                 message = PSRPMessage(
                     raw_message.message_type, raw_message.data, raw_message.rpid, raw_message.pid, fragment.object_id
                 )
-                self._incoming_messages[fragment.object_id] = message
-                del self._incoming_fragments[fragment.object_id]
+                self._incoming_messages.append(message)
 
-        for object_id in list(self._incoming_messages.keys()):
-            message = self._incoming_messages[object_id]
+        while self._incoming_messages:
             # In case of a failure it is expected for the client to receive the correct data instead
-            del self._incoming_messages[object_id]
+            message = self._incoming_messages.pop(0)
 
             event = self._process_message(message)
 
-- 
2.43.0


From f24b250ba49fb60d2050304c72f85567c337fca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:52 +0000
Subject: [PATCH 04/41] fix: send null pipeline input as pipeline input

prepare_message() always marked a null message as pipeline output, a client
that sent null as pipeline input sent a message that was not an input to the
server.
---
 src/psrpcore/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index e89ca09..b58cb85 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -380,7 +380,7 @@ class RunspacePool(typing.Generic[T1]):
         """
         if message is None:
             b_data = b""
-            message_type = PSRPMessageType.PipelineOutput
+            message_type = message_type or PSRPMessageType.PipelineOutput
 
         elif isinstance(message, EndOfPipelineInput):
             b_data = b""  # Special edge case for this particular message type
@@ -449,7 +449,9 @@ class RunspacePool(typing.Generic[T1]):
             # Special edge case for EndOfPipelineInput which has no data.
             ps_object = EndOfPipelineInput()
 
-        elif message.message_type == PSRPMessageType.PipelineOutput and data == b"":
+        elif (
+            message.message_type in [PSRPMessageType.PipelineInput, PSRPMessageType.PipelineOutput] and data == b""
+        ):
             ps_object = None
 
         else:
-- 
2.43.0


From 72b2251bb10ed0f7c62915828ab2eecbc43ed8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:11 +0000
Subject: [PATCH 05/41] fix: surface late events for pipelines and requests the
 client no longer has

A pipeline state message for a pipeline that was closed in the meantime, or
an availability response to a request of a previous client, raised a KeyError
out of next_event() and the event was lost.
---
 src/psrpcore/_client.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/psrpcore/_client.py b/src/psrpcore/_client.py
index 1c29340..75d4b0c 100644
--- a/src/psrpcore/_client.py
+++ b/src/psrpcore/_client.py
@@ -364,8 +364,10 @@ class ClientRunspacePool(RunspacePool["_ClientPipeline"]):
         event: PipelineStateEvent,
     ) -> None:
         pipeline_id = event.pipeline_id
-        pipeline = self.pipeline_table[pipeline_id]
-        pipeline.state = event.state
+        pipeline = self.pipeline_table.get(pipeline_id, None)
+        # The pipeline may have already been closed, or created by another client of this pool.
+        if pipeline is not None:
+            pipeline.state = event.state
 
     def _process_ProgressRecord(
         self,
@@ -383,7 +385,7 @@ class ClientRunspacePool(RunspacePool["_ClientPipeline"]):
         self,
         event: RunspaceAvailabilityEvent,
     ) -> None:
-        handler = self._ci_handlers.pop(event.ci)
+        handler = self._ci_handlers.pop(event.ci, None)
         if handler is not None:
             handler(event)
 
-- 
2.43.0


From da8d879a36c00bba1ea9758bfe950ca5b60f0081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:41 +0000
Subject: [PATCH 06/41] fix: keep the pool state when a state change message
 cannot be created

Opening a pool with an application argument that cannot be serialized left
the pool as opening with half of the handshake in the send buffer, setting
the pool as broken with such an error record changed only the server's state.
---
 src/psrpcore/_client.py | 30 ++++++++++++++++++------------
 src/psrpcore/_server.py |  4 ++--
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/psrpcore/_client.py b/src/psrpcore/_client.py
index 75d4b0c..6ab27f2 100644
--- a/src/psrpcore/_client.py
+++ b/src/psrpcore/_client.py
@@ -124,19 +124,25 @@ class ClientRunspacePool(RunspacePool["_ClientPipeline"]):
             raise InvalidRunspacePoolState("open a Runspace Pool", self.state, [RunspacePoolState.BeforeOpen])
 
         host = self.host or HostInfo()
-        self._change_state(RunspacePoolState.Opening)
-
-        self.prepare_message(self.our_capability)
-        self.prepare_message(
-            InitRunspacePool(
-                MinRunspaces=self._min_runspaces,
-                MaxRunspaces=self._max_runspaces,
-                PSThreadOptions=self.thread_options,
-                ApartmentState=self.apartment_state,
-                HostInfo=host,
-                ApplicationArguments=self.application_arguments,
+        pending_messages = len(self._send_buffer)
+        try:
+            self.prepare_message(self.our_capability)
+            self.prepare_message(
+                InitRunspacePool(
+                    MinRunspaces=self._min_runspaces,
+                    MaxRunspaces=self._max_runspaces,
+                    PSThreadOptions=self.thread_options,
+                    ApartmentState=self.apartment_state,
+                    HostInfo=host,
+                    ApplicationArguments=self.application_arguments,
+                )
             )
-        )
+        except Exception:
+            # Don't leave half of the handshake in the buffer if the other half could not be serialized.
+            del self._send_buffer[pending_messages:]
+            raise
+
+        self._change_state(RunspacePoolState.Opening)
 
     def connect(self) -> None:
         """Connects to the Runspace Pool.
diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index fca9014..7a0546e 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -299,8 +299,6 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         error: typing.Optional[ErrorRecord] = None,
         emit: bool = True,
     ) -> None:
-        super()._change_state(state, error)
-
         # (Dis)connection states aren't sent to the client
         if emit and state not in [
             RunspacePoolState.Disconnected,
@@ -314,6 +312,8 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
                 state_kwargs["ExceptionAsErrorRecord"] = error
             self.prepare_message(RunspacePoolStateMsg(**state_kwargs))
 
+        super()._change_state(state, error)
+
     def _process_ConnectRunspacePool(
         self,
         event: ConnectRunspacePoolEvent,
-- 
2.43.0


From 4b6a33a8a5967ccac206f4991a349b180d17c66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:02 +0000
Subject: [PATCH 07/41] fix: start from a clean slate when a new client
 connects to the pool

Fragments a vanished client did not complete were combined with the fragments
of the new client's messages that use the same object id, and its requests
could still be answered to the new client. Restarting the outgoing object and
call ids also gave messages that are still queued and new ones the same id.
---
 src/psrpcore/_server.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index 7a0546e..475e9d8 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -111,10 +111,13 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
                 "accept Runspace Pool connections", self.state, [RunspacePoolState.Disconnected]
             )
 
-        # The incoming messages will be from a blank runspace pool so start back at 1
-        # TODO: Verify there are no incoming fragments/messages not processed.
-        self._ci_count = 1
-        self._fragment_count = 1
+        # The incoming messages will be from a blank runspace pool, what the previous client did not finish sending or is
+        # still waiting for no longer applies. The outgoing counters continue as messages or host calls created with the
+        # previous values may not have been sent or answered yet.
+        self._receive_buffer.clear()
+        self._incoming_fragments.clear()
+        self._ci_events.clear()
+        self._ci_handlers.clear()
         self._change_state(RunspacePoolState.Connecting)
 
     def send_event(
-- 
2.43.0


From d27ac3cb842e4d8b39736c296a861db219b784d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:07 +0000
Subject: [PATCH 08/41] fix: refuse the connect request that targets a
 different pool

Only the capability message of such a connection was refused, the connect
request that follows it still opened the pool to that client.
---
 src/psrpcore/_server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index 475e9d8..0640d1c 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -321,6 +321,9 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         self,
         event: ConnectRunspacePoolEvent,
     ) -> None:
+        if self.runspace_pool_id != event.runspace_pool_id:
+            raise PSRPCoreError("Incoming connection is targeted towards a different Runspace Pool")
+
         # FIXME: Verify this behaviour when the props aren't set or when invalid ones are
         self._max_runspaces = event.max_runspaces or self.max_runspaces
         self._min_runspaces = event.min_runspaces or self.min_runspaces
-- 
2.43.0


From 2832580f19013fd015fb9afad85c870cadad48a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:12 +0000
Subject: [PATCH 09/41] fix: allow the server to request the key of a newly
 connected client

The server remembered that the key was exchanged with the previous client and
request_key() did nothing for the rest of the pool's life.
---
 src/psrpcore/_server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index 0640d1c..a832293 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -118,6 +118,7 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         self._incoming_fragments.clear()
         self._ci_events.clear()
         self._ci_handlers.clear()
+        self._key_requested = False
         self._change_state(RunspacePoolState.Connecting)
 
     def send_event(
-- 
2.43.0


From e2108d34717e26919f71d5e462c1a372e71bc1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:43 +0000
Subject: [PATCH 10/41] fix: do not serialize objects that are only equal as
 the same object

An extended primitive that equals one serialized earlier in the same message
was replaced with a reference to it and lost its own properties.
---
 src/psrpcore/types/_serializer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 37d6c7a..6ff0fbe 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -653,7 +653,7 @@ class _Serializer:
         self._kwargs = kwargs
 
         # Used for serialization to determine fi an object is already serialized or not.
-        self._obj_ref: weakref.WeakKeyDictionary = weakref.WeakKeyDictionary()
+        self._obj_ref: typing.Dict[int, typing.Tuple[int, typing.Any]] = {}
         self._obj_ref_enum: typing.Dict[int, int] = {}
         self._obj_ref_id = 0
         self._tn_ref_list: typing.List[str] = []
@@ -1182,7 +1182,10 @@ class _Serializer:
         next_ref_id = self._obj_ref_id
 
         try:
-            ref_id = self._obj_ref.setdefault(value, next_ref_id)
+            # Only the same instance can be a reference, values that are equal can still have different properties.
+            hash(value)
+            weakref.ref(value)
+            ref_id, _ = self._obj_ref.setdefault(id(value), (next_ref_id, value))
         except TypeError as e:
             # Some objects cannot have a weakref, try id() only when dealing with known workable types.
             if isinstance(value, enum.Enum):
-- 
2.43.0


From 169678f1c4cb07dc63507e47f6075cb2fa748c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:49 +0000
Subject: [PATCH 11/41] fix: do not replace the type names with those of
 another object

Objects with the same first but otherwise different type names were given the
type names of whichever was serialized first in the message.
---
 src/psrpcore/types/_serializer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 6ff0fbe..3b5a5d2 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -656,7 +656,7 @@ class _Serializer:
         self._obj_ref: typing.Dict[int, typing.Tuple[int, typing.Any]] = {}
         self._obj_ref_enum: typing.Dict[int, int] = {}
         self._obj_ref_id = 0
-        self._tn_ref_list: typing.List[str] = []
+        self._tn_ref_list: typing.List[typing.List[str]] = []
 
         # Used for deserialization
         self._obj_ref_map: typing.Dict[str, typing.Any] = {}
@@ -862,16 +862,15 @@ class _Serializer:
         # Do not add the type names for extended primitive object unless it's an enum
         if ps_object.type_names and (is_enum or not is_extended_primitive):
             type_names = ps_object.type_names
-            main_type = type_names[0]
-            is_ref = main_type in self._tn_ref_list
+            is_ref = type_names in self._tn_ref_list
 
             if is_ref:
-                ref_id = self._tn_ref_list.index(main_type)
+                ref_id = self._tn_ref_list.index(type_names)
                 ElementTree.SubElement(element, "TNRef", RefId=str(ref_id))
 
             else:
-                self._tn_ref_list.append(main_type)
-                ref_id = self._tn_ref_list.index(main_type)
+                self._tn_ref_list.append(list(type_names))
+                ref_id = self._tn_ref_list.index(type_names)
 
                 tn = ElementTree.SubElement(element, "TN", RefId=str(ref_id))
                 for type_name in type_names:
-- 
2.43.0


From 003df6cd2c5e6843be544f735c05002b41765b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:55 +0000
Subject: [PATCH 12/41] fix: keep trailing zeros of whole seconds in a duration

A duration of 10 seconds was serialized as 1 second.
---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 3b5a5d2..61a4a86 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -561,7 +561,7 @@ def _serialize_duration(
         minutes_str = f"{minutes}M" if minutes else ""
         seconds_str = f"{seconds:.7f}" if (seconds or (not hours_str and not minutes_str)) else ""
         if seconds_str:
-            seconds_str = seconds_str.rstrip(".0").zfill(1) + "S"
+            seconds_str = seconds_str.rstrip("0").rstrip(".") + "S"
 
         time_str = f"T{hours_str}{minutes_str}{seconds_str}"
 
-- 
2.43.0


From 8a7dddf73e14fa22e14089368ee665e022548800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:02 +0000
Subject: [PATCH 13/41] fix: serialize integers below the Int32 range as Int64

They were sent as an Int32 which the peer cannot deserialize.
---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 61a4a86..5baefde 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -738,7 +738,7 @@ class _Serializer:
             if isinstance(value, PSObject):
                 ps_type = type(value)
             elif isinstance(value, int):
-                ps_type = PSInt64 if value > PSInt.MaxValue else PSInt
+                ps_type = PSInt if PSInt.MinValue <= value <= PSInt.MaxValue else PSInt64
             elif isinstance(value, float):
                 ps_type = PSSingle
             else:
-- 
2.43.0


From 4bf56c1f0584b6aba08ec26d337c9bcb4ad378bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:03 +0000
Subject: [PATCH 14/41] fix: do not store what was received with an enum value
 on its type

Deserializing an enum member set the string representation, and any extra
properties, on the metadata shared by all the members of that enum for the
rest of the process.
---
 src/psrpcore/types/_serializer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 5baefde..fce79a8 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1144,10 +1144,13 @@ class _Serializer:
 
                     value = self._update_value_ref(new_value, ref_id)
 
-        if to_string is not None:
+        # The PSObject of an enum is shared by every member of that type, it isn't specific to the value received here.
+        is_enum = isinstance(value, enum.Enum)
+
+        if to_string is not None and not is_enum:
             value.PSObject.to_string = to_string
 
-        if isinstance(value, PSObject):
+        if isinstance(value, PSObject) and not is_enum:
             # Ensure the object's type names are what was in the CLIXML
             if original_type_names:
                 value.PSObject.type_names = original_type_names
-- 
2.43.0


From 128302fb2a489529fe41824aaa71092d77ea98ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:08 +0000
Subject: [PATCH 15/41] fix: serialize years before 1000 with four digits

The peer could not deserialize the value.
---
 src/psrpcore/types/_serializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index fce79a8..84668a2 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -518,7 +518,8 @@ def _serialize_datetime(
         utc_offset = value.strftime("%z")
         timezone = f"{utc_offset[:3]}:{utc_offset[3:]}"
 
-    dt_str = value.strftime(f"%Y-%m-%dT%H:%M:%S{fraction_seconds}{timezone}")
+    # Not every platform pads the year with %Y.
+    dt_str = value.strftime(f"{value.year:04}-%m-%dT%H:%M:%S{fraction_seconds}{timezone}")
 
     return dt_str
 
-- 
2.43.0


From 1f7ef291e123461dab9040a324c8d264a0a3061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 16/41] fix: escape the string representation and type names of
 an object

The string representation was only unescaped when deserializing, control
characters in either made the message invalid XML.
---
 src/psrpcore/types/_serializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 84668a2..b758742 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -875,7 +875,7 @@ class _Serializer:
 
                 tn = ElementTree.SubElement(element, "TN", RefId=str(ref_id))
                 for type_name in type_names:
-                    ElementTree.SubElement(tn, "T").text = type_name
+                    ElementTree.SubElement(tn, "T").text = _serialize_string(type_name)
 
         no_props = True
         for xml_name, prop_type in [("Props", "adapted"), ("MS", "extended")]:
@@ -940,7 +940,7 @@ class _Serializer:
                 to_string = ps_object.to_string
 
             if to_string:
-                ElementTree.SubElement(element, "ToString").text = to_string
+                ElementTree.SubElement(element, "ToString").text = _serialize_string(to_string)
 
             if is_complex and no_props and not isinstance(value, PSObject):
                 # If this was a complex object but no properties were defined we consider this a normal Python
@@ -1041,7 +1041,7 @@ class _Serializer:
         if element_tag != "Obj":
             raise ValueError(f"Unknown element found: {element.tag}")
 
-        type_names = [e.text or "" for e in element.findall("TN/T")]
+        type_names = [_deserialize_string(e.text or "") for e in element.findall("TN/T")]
         if type_names:
             tn_ref = element.find("TN")
             if tn_ref is not None:
-- 
2.43.0


From 87eaa4760a64a8f81ba47a6e12afc876f112700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:22 +0000
Subject: [PATCH 17/41] fix: escape all characters XML cannot represent and
 only unescape real sequences

Lone surrogates from U+D900 and the U+FFFE and U+FFFF noncharacters were not
escaped, the peer cannot parse the message. Unescaping matched the UTF-16
bytes at odd offsets and corrupted strings like U+0100 U+5F00 U+7800 ...
---
 src/psrpcore/types/_serializer.py | 36 +++++++++++--------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index b758742..4b04700 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -70,12 +70,12 @@ log = logging.getLogger(__name__)
 # Finds _x in a case insensitive way which we need to escape first as '_x' is the escape code.
 _STRING_SERIAL_ESCAPE_ESCAPE = re.compile("(?i)_(x)")
 
-# Finds C0, C1, and surrogate pairs in a unicode string for us to encode according to the PSRP rules.
-_STRING_SERIAL_ESCAPE = re.compile("[\u0000-\u001F\u007F-\u009F\uD800-\uD8FF\uDC00-\uDFFF\U00010000-\U0010FFFF]")
+# Finds C0, C1, surrogate pairs, and characters not valid in XML in a unicode string for us to encode according to the
+# PSRP rules.
+_STRING_SERIAL_ESCAPE = re.compile("[\u0000-\u001F\u007F-\u009F\uD800-\uDFFF\uFFFE\uFFFF\U00010000-\U0010FFFF]")
 
-# To support surrogate UTF-16 pairs we need to use a UTF-16 regex so we can replace the UTF-16 string representation
-# with the actual UTF-16 byte value and then decode that.
-_STRING_DESERIAL_FIND = re.compile(rb"\x00_\x00x((?:\x00[a-fA-F0-9]){4})\x00_")
+# Finds the escaped UTF-16 code units in a CLIXML string.
+_STRING_DESERIAL_FIND = re.compile("_x([a-fA-F0-9]{4})_")
 
 # Python datetime only supports up to microsecond precision but .NET can go to 100 nanoseconds. To support this level
 # of precision we need to extract the fractional seconds part of a datetime ourselves and compute the value.
@@ -465,25 +465,13 @@ def _deserialize_string(
             represented by the CLIXML.
     """
 
-    # test '_xD83C_'
-
-    def rplcr(matchobj: typing.Any) -> bytes:
-        # The matched object is the UTF-16 byte representation of the UTF-8 hex string value. We need to decode the
-        # byte str to unicode and then unhexlify that hex string to get the actual bytes of the _x****_ value, e.g.
-        # group(0) == b'\x00_\x00x\x000\x000\x000\x00A\x00_'
-        # group(1) == b'\x000\x000\x000\x00A'
-        # unicode (from utf-16-be) == '000A'
-        # returns b'\x00\x0A'
-        match_hex = matchobj.group(1)
-        hex_string = match_hex.decode("utf-16-be")
-        return binascii.unhexlify(hex_string)
-
-    # Need to ensure we start with a unicode representation of the string so that we can get the actual UTF-16 bytes
-    # value from that string.
-    b_value = value.encode("utf-16-be")
-    b_escaped = re.sub(_STRING_DESERIAL_FIND, rplcr, b_value)
-
-    return b_escaped.decode("utf-16-be", errors="surrogatepass")
+    def rplcr(matchobj: typing.Any) -> str:
+        return chr(int(matchobj.group(1), 16))
+
+    escaped = re.sub(_STRING_DESERIAL_FIND, rplcr, value)
+
+    # Each half of a surrogate pair is its own escape sequence, going through UTF-16 combines them to the actual char.
+    return escaped.encode("utf-16-be", errors="surrogatepass").decode("utf-16-be", errors="surrogatepass")
 
 
 def _serialize_datetime(
-- 
2.43.0


From 5c8de537a7b7d1453a770bd217e77ca08578bca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:49 +0000
Subject: [PATCH 18/41] fix: do not empty a queue by serializing it

The entries were taken out of the caller's queue, sending it again sent an
empty queue and a failure to serialize an entry lost those before it.
---
 src/psrpcore/types/_serializer.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 4b04700..41f2373 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -897,13 +897,17 @@ class _Serializer:
         elif isinstance(value, (PSQueueBase, queue.Queue)):
             que_element = ElementTree.SubElement(element, self._type_to_element[PSQueue])
 
-            while True:
-                try:
-                    que_entry = self.serialize(value.get(block=False))
-                except queue.Empty:
-                    break
-                else:
-                    que_element.append(que_entry)
+            # Serialize a copy of the entries in the order they would be retrieved, the queue itself must stay as is.
+            with value.mutex:
+                que_entries = list(value.queue)
+
+            if isinstance(value, queue.LifoQueue):
+                que_entries.reverse()
+            elif isinstance(value, queue.PriorityQueue):
+                que_entries.sort()
+
+            for que_entry in que_entries:
+                que_element.append(self.serialize(que_entry))
 
         elif isinstance(value, (PSDictBase, dict)):
             dct_element = ElementTree.SubElement(element, self._type_to_element[PSDict])
-- 
2.43.0


From 043d93b3d3c3a7205a9be1d22221c812a6b2d4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:29 +0000
Subject: [PATCH 19/41] fix: write information records when the user running
 the server has no name

getpass.getuser() raises KeyError, OSError on newer Python versions, when the
user id isn't in the password database, only ModuleNotFoundError was handled.
---
 src/psrpcore/types/_complex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_complex.py b/src/psrpcore/types/_complex.py
index b34a45e..19503a1 100644
--- a/src/psrpcore/types/_complex.py
+++ b/src/psrpcore/types/_complex.py
@@ -1106,7 +1106,7 @@ class InformationRecord(PSObject):
                 # getuser on Windows relies on env vars that may not may not be set. Just fallback gracefully.
                 user = getpass.getuser()
 
-            except ModuleNotFoundError:  # pragma: no cover
+            except (ModuleNotFoundError, KeyError, OSError):  # pragma: no cover
                 user = "Unknown"
 
         computer = PSString(platform.node()) if computer is None else computer
-- 
2.43.0


From 3209843d4afe714bdd10bd71f7ccaf1c2f2db52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:37 +0000
Subject: [PATCH 20/41] fix: write the CLIXML marker with the first data the
 shell returns

Calling data_to_send() before anything was written, or when a value failed to
serialize, left out the marker from the output. A value that cannot be
serialized also made every later call fail.
---
 src/psrpcore/_clixml_shell.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/psrpcore/_clixml_shell.py b/src/psrpcore/_clixml_shell.py
index 5580245..ec27800 100644
--- a/src/psrpcore/_clixml_shell.py
+++ b/src/psrpcore/_clixml_shell.py
@@ -318,16 +318,19 @@ class ClixmlShell:
         Returns:
             str: The string to write to stdout.
         """
-        if self._written_marker:
-            prefix = "\n"
-        else:
-            prefix = "#< CLIXML\n"
-            self._written_marker = True
+        if not self._stdout:
+            return ""
 
-        stdout = ""
-        if self._stdout:
+        prefix = "\n" if self._written_marker else "#< CLIXML\n"
+        try:
             stdout = f"{prefix}{serialize_clixml(self._stdout, self._cipher)}"
-            self._stdout = []
+        except Exception:
+            # A value that cannot be serialized must not hold back the values around it on the next call.
+            self._stdout = [v for v in self._stdout if self._can_serialize(v)]
+            raise
+
+        self._written_marker = True
+        self._stdout = []
 
         return stdout
 
@@ -439,3 +442,14 @@ class ClixmlShell:
             value: The string or InformationRecord to write.
         """
         self._stdout.append((value, ClixmlStream.INFORMATION))
+
+    def _can_serialize(
+        self,
+        value: tuple[t.Any, ClixmlStream],
+    ) -> bool:
+        try:
+            serialize_clixml([value], self._cipher)
+        except Exception:
+            return False
+        else:
+            return True
-- 
2.43.0


From 08eb689f36ad7d2fe10546a0ad6f811c27c4f2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:43 +0000
Subject: [PATCH 21/41] fix: do not grow the accepted types with each operator
 call

Every comparison or arithmetic operation added another entry to a list that
is kept for the life of the process.
---
 src/psrpcore/types/_primitive.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 34bbeeb..9b95b9d 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -52,8 +52,7 @@ def _ensure_types_and_self(
 
     def decorator(func: typing.Callable) -> typing.Callable:
         def wrapped(self: PSObject, other: object) -> typing.Any:
-            types_to_check.append(type(self))
-            if not isinstance(other, tuple(types_to_check)):
+            if not isinstance(other, (*types_to_check, type(self))):
                 return NotImplemented
 
             return func(self, other)
-- 
2.43.0


From c9acb8e8a66c87a5dfebb01bf4ac86d8e8aa1b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:59 +0000
Subject: [PATCH 22/41] fix: keep empty strings of a progress record

---
 src/psrpcore/types/_serializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 41f2373..fcdda20 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -430,15 +430,15 @@ def _deserialize_progress_record(
         ("SD", "StatusDescription", str),
     ]:
         element_value = value.find(element_key)
-        if element_value is None or not element_value.text:
+        if element_value is None or (prop_type != str and not element_value.text):
             continue
 
         prop_value: typing.Union[int, str, ProgressRecordType]
         if prop_type == int:
-            prop_value = int(element_value.text)
+            prop_value = int(element_value.text or 0)
 
         else:
-            prop_value = _deserialize_string(element_value.text)
+            prop_value = _deserialize_string(element_value.text or "")
 
         if prop_type == ProgressRecordType:
             prop_value = ProgressRecordType[str(prop_value)]
-- 
2.43.0


From 75de9c3571b683a2ec46a9ae2ec038364f29c6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:47 +0000
Subject: [PATCH 23/41] fix: resolve references to objects in the properties of
 a container

The properties of a container are written before its items but were
deserialized after them, an item that refers to an object in there
failed with a KeyError.
---
 src/psrpcore/types/_serializer.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index fcdda20..e405fb9 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1060,17 +1060,16 @@ class _Serializer:
         elif issubclass(rehydrated_value, (PSEnumBase, PSFlagBase)):
             original_type_names = rehydrated_value.PSObject.type_names
 
-        props: typing.Dict[str, typing.Optional[ElementTree.Element]] = {
-            "adapted_properties": None,
-            "extended_properties": None,
+        props: typing.Dict[str, typing.List[typing.Tuple[str, typing.Any]]] = {
+            "adapted_properties": [],
+            "extended_properties": [],
         }
         to_string = None
         for obj_entry in element:
-            if obj_entry.tag == "Props":
-                props["adapted_properties"] = obj_entry
-
-            elif obj_entry.tag == "MS":
-                props["extended_properties"] = obj_entry
+            if obj_entry.tag in ["Props", "MS"]:
+                # A later element can be a Ref to an object in here so the values are deserialized in document order.
+                prop_group = "adapted_properties" if obj_entry.tag == "Props" else "extended_properties"
+                props[prop_group] = [(_deserialize_string(p.attrib["N"]), self.deserialize(p)) for p in obj_entry]
 
             elif obj_entry.tag == "ToString":
                 to_string = self.deserialize(obj_entry)
@@ -1148,17 +1147,15 @@ class _Serializer:
             if original_type_names:
                 value.PSObject.type_names = original_type_names
 
-            for prop_group_name, prop_xml in props.items():
-                if prop_xml is None:
+            for prop_group_name, prop_values in props.items():
+                if not prop_values:
                     continue
 
                 # add_note_property only sets to extended properties. We just use the actual prop list as the scratch
                 # object's extended properties. Anything modified/added will reflect in our actual object property.
                 scratch_obj = PSCustomObject()
                 scratch_obj.PSObject.extended_properties = getattr(value.PSObject, prop_group_name)
-                for obj_property in prop_xml:
-                    prop_name = _deserialize_string(obj_property.attrib["N"])
-                    prop_value = self.deserialize(obj_property)
+                for prop_name, prop_value in prop_values:
                     add_note_property(scratch_obj, prop_name, prop_value, force=True)
 
         # Final override that allows classes to transform the raw CLIXML deserialized object to something more human
-- 
2.43.0


From 2cf9243a77ec9feba960d7298ad7c550d96f685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:58 +0000
Subject: [PATCH 24/41] fix: encrypt a secure string of another session with
 the own key

A secure string received in one session and sent in another kept the
ciphertext of the first, which the peer could not decrypt.
---
 src/psrpcore/types/_primitive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 9b95b9d..5e69bce 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -1234,5 +1234,9 @@ class PSSecureString(PSObject):
             # the value and return that for serialization.
             return cls(cipher.encrypt(instance._value), cipher)
 
+        elif instance._cipher is not cipher:
+            # The value came from another session, the peer can only decrypt what was encrypted with its own key.
+            return cls(cipher.encrypt(instance.decrypt()), cipher)
+
         else:
             return instance
-- 
2.43.0


From 7051b339f9b16c7f7574525fc64f989f47b8e692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:20 +0000
Subject: [PATCH 25/41] fix: keep empty error details and script stack traces

An empty string is a value of its own, only a missing one is left out.
---
 src/psrpcore/types/_complex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_complex.py b/src/psrpcore/types/_complex.py
index 19503a1..c1e1b7d 100644
--- a/src/psrpcore/types/_complex.py
+++ b/src/psrpcore/types/_complex.py
@@ -828,7 +828,7 @@ class ErrorRecord(PSObject):
         error_details = None
         error_details_message = getattr(obj, "ErrorDetails_Message", None)
         error_details_action = getattr(obj, "ErrorDetails_RecommendedAction", None)
-        if error_details_message or error_details_action:
+        if error_details_message is not None or error_details_action is not None:
             error_details = ErrorDetails(
                 Message=error_details_message,
                 RecommendedAction=error_details_action,
@@ -880,7 +880,7 @@ class ErrorRecord(PSObject):
             add_note_property(obj, "ErrorDetails_Message", instance.ErrorDetails.Message)
             add_note_property(obj, "ErrorDetails_RecommendedAction", instance.ErrorDetails.RecommendedAction)
 
-        if instance.ScriptStackTrace:
+        if instance.ScriptStackTrace is not None:
             add_note_property(obj, "ErrorDetails_ScriptStackTrace", instance.ScriptStackTrace)
 
         if instance.serialize_extended_info and instance.InvocationInfo:
-- 
2.43.0


From 4e4e9b7f1d2119ba82444a35189a5c4cec18616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:42 +0000
Subject: [PATCH 26/41] fix: accept records whose invocation has no command
 origin

Such a record was sent without complaint but could not be read by the
peer, next_event failed with a ValueError and the record was lost.
---
 src/psrpcore/types/_complex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_complex.py b/src/psrpcore/types/_complex.py
index c1e1b7d..cf9d4a0 100644
--- a/src/psrpcore/types/_complex.py
+++ b/src/psrpcore/types/_complex.py
@@ -621,6 +621,7 @@ def _invocation_info_from_ps_object(
         else:  # pragma: no cover
             ps_script_root = ntpath.dirname(ps_command_path)
 
+    command_origin = obj.InvocationInfo_CommandOrigin
     my_command = None
     command_type = getattr(obj, "CommandInfo_CommandType", None)
     if command_type is not None:
@@ -633,7 +634,7 @@ def _invocation_info_from_ps_object(
 
     return InvocationInfo(
         BoundParameters=getattr(obj, "InvocationInfo_BoundParameters", None) or PSDict(),
-        CommandOrigin=CommandOrigin(obj.InvocationInfo_CommandOrigin),
+        CommandOrigin=None if command_origin is None else CommandOrigin(command_origin),
         DisplayScriptPosition=display_script_position,
         ExpectingInput=obj.InvocationInfo_ExpectingInput,
         HistoryId=obj.InvocationInfo_HistoryId,
-- 
2.43.0


From 53192ecda179e6fe0127811cdc22f4c204ee8cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:03 +0000
Subject: [PATCH 27/41] fix: honour an explicit STA apartment state of a
 pipeline

---
 src/psrpcore/_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/_client.py b/src/psrpcore/_client.py
index 6ab27f2..85f6e7c 100644
--- a/src/psrpcore/_client.py
+++ b/src/psrpcore/_client.py
@@ -563,7 +563,7 @@ class ClientPowerShell(_ClientPipeline):
         super().__init__(runspace_pool=runspace_pool, pipeline_id=pipeline_id)
         self.metadata: PowerShell = PowerShell(
             add_to_history=add_to_history,
-            apartment_state=apartment_state or runspace_pool.apartment_state,
+            apartment_state=runspace_pool.apartment_state if apartment_state is None else apartment_state,
             history=history,
             host=host,
             is_nested=is_nested,
-- 
2.43.0


From cd04cb1a254c7afa9d9cd13e5dbeeed95e0ef891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:58 +0000
Subject: [PATCH 28/41] fix: write NaN and decimals in the lexical forms of the
 XML schema types

A not-a-number was written as NAN and a decimal with an exponent as 1E+5;
neither is a valid xs:double or xs:decimal and other peers refuse them.
---
 src/psrpcore/types/_serializer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index e405fb9..0877162 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -739,7 +739,13 @@ class _Serializer:
                 xml_value = int(xml_value)
 
             element = ElementTree.Element(self._type_to_element[ps_type])
-            element.text = str(xml_value).upper()  # upper() needed for the Double and Single types.
+            if isinstance(xml_value, decimal.Decimal):
+                # The lexical form of a decimal has no exponent.
+                element.text = format(xml_value, "f")
+            elif isinstance(xml_value, float) and xml_value != xml_value:
+                element.text = "NaN"
+            else:
+                element.text = str(xml_value).upper()  # upper() needed for the Double and Single types.
 
         # Naive strings
         elif isinstance(
-- 
2.43.0


From 6a2b39474f5b598ddf5c2e12a48b08d1d93a3a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:25 +0000
Subject: [PATCH 29/41] fix: serialize a combination of flags with the base
 type of the enum

The value of a combination is a plain int so it was serialized as an Int32 or
Int64 no matter which base_type the flags were declared with.
---
 src/psrpcore/types/_enum.py       | 3 +++
 src/psrpcore/types/_serializer.py | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_enum.py b/src/psrpcore/types/_enum.py
index 3ba7408..04316f9 100644
--- a/src/psrpcore/types/_enum.py
+++ b/src/psrpcore/types/_enum.py
@@ -28,6 +28,8 @@ class PSEnumMeta(enum.EnumMeta):
     this as their metaclass.
     """
 
+    BaseType: typing.Type[PSIntegerBase]
+
     @classmethod
     def __prepare__(  # type: ignore[override]  # Uses internal class for annotation
         metacls,
@@ -65,6 +67,7 @@ class PSEnumMeta(enum.EnumMeta):
             bases,
             namespace,  # type: ignore[arg-type] # _EnumDict is private so cannot be used properly
         )
+        setattr(cls, "BaseType", base_type)
         setattr(cls, "MinValue", base_type.MinValue)
         setattr(cls, "MaxValue", base_type.MaxValue)
         return cls
diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 0877162..671c954 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -701,7 +701,12 @@ class _Serializer:
 
         # We initially serialize the enum based on the raw value.
         elif is_enum:
-            element = self.serialize(value.value)
+            enum_value = value.value
+            if isinstance(value, PSFlagBase) and value.MinValue <= enum_value <= value.MaxValue:
+                # The value of a combination of flags is a plain int, the base type determines the element.
+                enum_value = type(value).BaseType(enum_value)
+
+            element = self.serialize(enum_value)
 
         # Integer types
         elif isinstance(
-- 
2.43.0


From 3bb0573f11c1547bdd455959e4b27ae290ed1aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:18 +0000
Subject: [PATCH 30/41] fix: read CLIXML without any object

serialize_clixml([]) writes an empty Objs element, as PowerShell does for a
command without output, which deserialize_clixml failed to parse.
---
 src/psrpcore/types/_serializer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 671c954..de0c061 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -184,6 +184,10 @@ def deserialize_clixml(
     # breaking our parser. It is easier to just strip it from the root Objs
     # element.
     objs_header_end_idx = clixml.find(">")
+    if clixml[objs_header_end_idx - 1] == "/":
+        # There are no objects and Objs is an empty element.
+        objs_header_end_idx -= 1
+
     clixml = "<Objs" + clixml[objs_header_end_idx:]
 
     raw_clixml = ElementTree.fromstring(clixml)
-- 
2.43.0


From ab7a6183381ce1a50632ecb8c31a0023304497cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:40 +0000
Subject: [PATCH 31/41] fix: read an invocation sent without the
 SerializeExtent member

---
 src/psrpcore/types/_complex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_complex.py b/src/psrpcore/types/_complex.py
index cf9d4a0..17b1bd3 100644
--- a/src/psrpcore/types/_complex.py
+++ b/src/psrpcore/types/_complex.py
@@ -600,7 +600,7 @@ def _invocation_info_from_ps_object(
     ps_command_path = ""
     ps_script_root = ""
 
-    if getattr(obj, "SerializeExtent") or False:
+    if getattr(obj, "SerializeExtent", False):
         display_script_position = _script_extent_from_ps_object(obj)
 
     else:
-- 
2.43.0


From 14645be4afd2021fadd301b52fdf531ddee7f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:25 +0000
Subject: [PATCH 32/41] fix: text of a script extent without columns or lines

---
 src/psrpcore/types/_complex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_complex.py b/src/psrpcore/types/_complex.py
index 17b1bd3..fecdac3 100644
--- a/src/psrpcore/types/_complex.py
+++ b/src/psrpcore/types/_complex.py
@@ -488,11 +488,12 @@ class ScriptExtent(PSObject):
 
     @property
     def _text(self) -> PSString:
-        if self.EndColumnNumber < 1:
+        required = [self.StartColumnNumber, self.EndColumnNumber, self._start.Line, self._end.Line]
+        if None in required or self.EndColumnNumber < 1:
             val = ""
 
         elif self.StartLineNumber == self.EndLineNumber:
-            val = self._start.Line[max(self.StartColumnNumber - 1, 0) : self.EndColumnNumber]
+            val = self._start.Line[max(self.StartColumnNumber, 1) - 1 : self.EndColumnNumber]
 
         else:
             start = self._start.Line[self.StartColumnNumber :]
-- 
2.43.0


From ad5c1ac13918e6900268b6762a8260cfc558cc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:36 +0000
Subject: [PATCH 33/41] fix: durations and versions as dictionary keys

---
 src/psrpcore/types/_primitive.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 5e69bce..10e3013 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -529,6 +529,10 @@ class PSDuration(PSObject, datetime.timedelta):
     def __pos__(self) -> "PSDuration":
         return self
 
+    def __hash__(self) -> int:
+        # Defining __eq__ removes the inherited hash, equal durations have the same timedelta components.
+        return datetime.timedelta.__hash__(self)
+
     @_ensure_types_and_self(datetime.timedelta)
     def __eq__(
         self,
@@ -1055,6 +1059,9 @@ class PSVersion(PSObject):
         parts = [self.major, self.minor, self.build, self.revision]
         return ".".join([str(p) for p in parts if p is not None])
 
+    def __hash__(self) -> int:
+        return hash(str(self))
+
     def __eq__(
         self,
         other: object,
-- 
2.43.0


From 8277a0a8e89656ccb5b9306494d6a6ca4b3244f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:36 +0000
Subject: [PATCH 34/41] fix: read a dictionary key before its value

---
 src/psrpcore/types/_serializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index de0c061..a06ad21 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1105,7 +1105,9 @@ class _Serializer:
                     if dict_value is None:
                         raise ValueError("Failed to find dict Value attribute")
 
-                    value[self.deserialize(dict_key)] = self.deserialize(dict_value)
+                    # The value can be a Ref to an object in the key so the key must be deserialized first.
+                    key = self.deserialize(dict_key)
+                    value[key] = self.deserialize(dict_value)
 
             elif obj_entry.tag == self._type_to_element[PSQueue]:
                 if not isinstance(value, PSQueueBase):
-- 
2.43.0


From 90718ffde5e3d225a2dba1eeae2d4905a588d799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:51 +0000
Subject: [PATCH 35/41] fix: Send the string form of an object also when it is
 empty

An object whose string form is an empty string was sent without a string form, the peer then shows it differently.
---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index a06ad21..9c5aed6 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -946,7 +946,7 @@ class _Serializer:
             elif not is_extended_primitive:
                 to_string = ps_object.to_string
 
-            if to_string:
+            if to_string is not None:
                 ElementTree.SubElement(element, "ToString").text = _serialize_string(to_string)
 
             if is_complex and no_props and not isinstance(value, PSObject):
-- 
2.43.0


From 0fcc3a5b89979a8f414414809964a24b2a6bb01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:13 +0000
Subject: [PATCH 36/41] fix: Show an object that refers to itself

repr() of an object that was received with a reference to itself or to an
object that contains it raised RecursionError.
---
 src/psrpcore/types/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psrpcore/types/_base.py b/src/psrpcore/types/_base.py
index 87d8df7..e97763d 100644
--- a/src/psrpcore/types/_base.py
+++ b/src/psrpcore/types/_base.py
@@ -16,6 +16,7 @@ like `-is`, `Add-Member` and so on.
 import abc
 import enum
 import inspect
+import reprlib
 import types
 import typing
 
@@ -723,6 +724,7 @@ class PSObject:
         else:
             return super().__str__()
 
+    @reprlib.recursive_repr()
     def __repr__(self) -> str:
         prop_entries = {p.name: p for p in self.PSObject.adapted_properties}
         prop_entries.update({p.name: p for p in self.PSObject.extended_properties})
-- 
2.43.0


From 6da905e08acbe9ff554457673adbe8af23a31d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:13 +0000
Subject: [PATCH 37/41] fix: Read a boolean that comes with type names or a
 string form

A bool cannot hold either, trying to set them raised AttributeError and the
message was lost.
---
 src/psrpcore/types/_serializer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 9c5aed6..304948e 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1148,7 +1148,8 @@ class _Serializer:
 
                 else:
                     # If the TypeRegister returned any types, set them on the new object name.
-                    if value.PSTypeNames:
+                    # A bool or None cannot hold any.
+                    if value.PSTypeNames and isinstance(new_value, PSObject):
                         new_value.PSObject.type_names = value.PSTypeNames
 
                     value = self._update_value_ref(new_value, ref_id)
@@ -1156,7 +1157,7 @@ class _Serializer:
         # The PSObject of an enum is shared by every member of that type, it isn't specific to the value received here.
         is_enum = isinstance(value, enum.Enum)
 
-        if to_string is not None and not is_enum:
+        if to_string is not None and isinstance(value, PSObject) and not is_enum:
             value.PSObject.to_string = to_string
 
         if isinstance(value, PSObject) and not is_enum:
-- 
2.43.0


From 01cb5db039b3ba2f473a3c7c7aead372c85fe9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:21 +0000
Subject: [PATCH 38/41] fix: Send a date whose offset has seconds as the same
 point in time in UTC

---
 src/psrpcore/types/_serializer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 304948e..18e4905 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -501,6 +501,11 @@ def _serialize_datetime(
         if nanoseconds:
             fraction_seconds += str(nanoseconds // 100)
 
+    utc_delta = value.utcoffset()
+    if utc_delta is not None and utc_delta % datetime.timedelta(minutes=1):
+        # The offset of a .NET DateTime has no seconds, the same point in time in UTC does not need them.
+        value = value.astimezone(datetime.timezone.utc)
+
     timezone = ""
     if value.tzinfo == datetime.timezone.utc:
         timezone = "Z"
-- 
2.43.0


From 926e7229f0981e407c56a27a17046164240f119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:58 +0000
Subject: [PATCH 39/41] fix: Refuse to send an int that is too large for an
 Int64

---
 src/psrpcore/types/_serializer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 18e4905..ec3f4eb 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -742,6 +742,7 @@ class _Serializer:
                 ps_type = type(value)
             elif isinstance(value, int):
                 ps_type = PSInt if PSInt.MinValue <= value <= PSInt.MaxValue else PSInt64
+                ps_type(value)  # Raises a ValueError for an int no receiver can read, being too large for an Int64.
             elif isinstance(value, float):
                 ps_type = PSSingle
             else:
-- 
2.43.0


From 06c40331a6b1e6032ddf5535fc3cd1763ba4af3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:03 +0000
Subject: [PATCH 40/41] fix: Keep a request whose availability answer cannot be
 created

---
 src/psrpcore/_server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index a832293..f400a34 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -281,13 +281,13 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         if isinstance(event, GetAvailableRunspacesEvent) and not isinstance(response, int):
             raise PSRPCoreError(f"Response for this event expects an int not {type(response).__name__}")
 
+        self.prepare_message(RunspaceAvailability(SetMinMaxRunspacesResponse=response, ci=ci))
+
         del self._ci_events[ci]
         handler = self._ci_handlers.pop(ci, None)
         if handler and response is True:
             handler(event)
 
-        self.prepare_message(RunspaceAvailability(SetMinMaxRunspacesResponse=response, ci=ci))
-
     def receive_data(
         self,
         data: PSRPPayload,
-- 
2.43.0


From 7aa58889eae816d89a49b0fcef367bc0ae9ad9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:03 +0000
Subject: [PATCH 41/41] fix: Keep nothing of a runspace limit request that
 cannot be created

---
 src/psrpcore/_client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/_client.py b/src/psrpcore/_client.py
index 85f6e7c..f052fc3 100644
--- a/src/psrpcore/_client.py
+++ b/src/psrpcore/_client.py
@@ -284,8 +284,8 @@ class ClientRunspacePool(RunspacePool["_ClientPipeline"]):
             return None
 
         ci = self._ci_counter
-        self._ci_handlers[ci] = functools.partial(self._set_runspaces_handler, "max", value)
         self.prepare_message(SetMaxRunspaces(MaxRunspaces=value, ci=ci))
+        self._ci_handlers[ci] = functools.partial(self._set_runspaces_handler, "max", value)
 
         return ci
 
@@ -311,8 +311,8 @@ class ClientRunspacePool(RunspacePool["_ClientPipeline"]):
             return None
 
         ci = self._ci_counter
-        self._ci_handlers[ci] = functools.partial(self._set_runspaces_handler, "min", value)
         self.prepare_message(SetMinRunspaces(MinRunspaces=value, ci=ci))
+        self._ci_handlers[ci] = functools.partial(self._set_runspaces_handler, "min", value)
 
         return ci
 
-- 
2.43.0

