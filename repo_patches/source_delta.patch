From 6d0e3d557907d051235dee34fc3cb390b23a9ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:46 +0000
Subject: [PATCH 1/8] fix: accept valid per-message skipped key limits

The comparison bound tighter than `or`, so that every nonzero per-message limit was rejected.
---
 omemo/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omemo/backend.py b/omemo/backend.py
index 2e15ebc..cd2c4bc 100644
--- a/omemo/backend.py
+++ b/omemo/backend.py
@@ -111,7 +111,7 @@ class Backend(ABC):
                 " skipped keys to keep is nonzero."
             )
 
-        if max_num_per_message_skipped_keys or 0 > max_num_per_session_skipped_keys:
+        if (max_num_per_message_skipped_keys or 0) > max_num_per_session_skipped_keys:
             raise ValueError(
                 "The number of allowed per-message skipped keys must not be greater than the number of"
                 " per-session skipped keys to keep."
-- 
2.43.0


From a3f64648a696bb85e7f3c3e1f8bfeaf7cb8ac7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:46 +0000
Subject: [PATCH 2/8] fix: back off exponentially when the bundle upload after
 a rotation fails

The delay was reset to one minute on each attempt.
---
 omemo/session_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index c5fc7d3..2c71989 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -676,8 +676,8 @@ class SessionManager(ABC):
 
                     # Rotate the signed pre if necessary
                     await backend.rotate_signed_pre_key()
+                    retry_delay = 60  # Start with one minute of retry delay
                     while True:
-                        retry_delay = 60  # Start with one minute of retry delay
                         try:
                             await self._upload_bundle(await backend.get_bundle(
                                 self.__own_bare_jid,
-- 
2.43.0


From b3732d8c4229da53ab8bb05127491f05faf74983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:24 +0000
Subject: [PATCH 3/8] fix: only build sessions with the identity key on record

The bundle used to build a session could carry an identity key other than the one that trust was
evaluated for.
---
 omemo/session_manager.py | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 2c71989..642d459 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1235,15 +1235,23 @@ class SessionManager(ABC):
                     # Prepare an empty message
                     content, plain_key_material = await backend.encrypt_empty()
 
+                    bundle = await self._download_bundle(
+                        backend.namespace,
+                        device.bare_jid,
+                        device.device_id
+                    )
+
+                    if bundle.identity_key != device.identity_key:
+                        raise KeyExchangeFailed(
+                            f"The identity key in the bundle of device {device.device_id} of bare JID"
+                            f" {device.bare_jid} does not match the identity key known for the device."
+                        )
+
                     # Build a new session to replace the old one
                     session, encrypted_key_material = await backend.build_session_active(
                         device.bare_jid,
                         device.device_id,
-                        await self._download_bundle(
-                            backend.namespace,
-                            device.bare_jid,
-                            device.device_id
-                        ),
+                        bundle,
                         plain_key_material
                     )
 
@@ -1895,15 +1903,27 @@ class SessionManager(ABC):
                 logging.getLogger(SessionManager.LOG_TAG).debug(f"Cached bundle: {bundle}")
 
                 try:
+                    if session is None:
+                        if bundle is None:
+                            bundle = await self._download_bundle(
+                                backend.namespace,
+                                device.bare_jid,
+                                device.device_id
+                            )
+
+                        # Trust was evaluated for the identity key on record, don't build a session with
+                        # another one.
+                        if bundle.identity_key != device.identity_key:
+                            raise KeyExchangeFailed(
+                                f"The identity key in the bundle of device {device.device_id} of bare JID"
+                                f" {device.bare_jid} does not match the identity key known for the device."
+                            )
+
                     # Build the session if necessary, and encrypt the key material
                     session, encrypted_key_material = await backend.build_session_active(
                         device.bare_jid,
                         device.device_id,
-                        await self._download_bundle(
-                            backend.namespace,
-                            device.bare_jid,
-                            device.device_id
-                        ) if bundle is None else bundle,
+                        cast(Bundle, bundle),
                         plain_key_material
                     ) if session is None else (session, await backend.encrypt_key_material(
                         session,
-- 
2.43.0


From 5ac49d1aa6ec49cc7e1f948a5ad48fccd9a13a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:24 +0000
Subject: [PATCH 4/8] fix: let a repeated create() finish what a failed one has
 left undone

The own device was recorded as set up for all backends before the pre keys, bundles and device lists were
taken care of, so that after a failure they never were.
---
 omemo/session_manager.py | 42 ++++++----------------------------------
 1 file changed, 6 insertions(+), 36 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 642d459..c535cf4 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -376,16 +376,10 @@ class SessionManager(ABC):
             ))
             logging.getLogger(SessionManager.LOG_TAG).debug(f"Generated device id: {self.__own_device_id}")
 
-            # Store the device information for this device
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
-                [ backend.namespace for backend in self.__backends ]
-            )
-
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
-                { backend.namespace: True for backend in self.__backends }
-            )
+            # Store the device information for this device. The backends are added one after the other below,
+            # each of them as soon as it is fully initialized.
+            await storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces", [])
+            await storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active", {})
 
             await storage.store(
                 f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label",
@@ -415,19 +409,6 @@ class SessionManager(ABC):
             # Finally store the device id once the other setup is done
             await self.__storage.store("/own_device_id", self.__own_device_id)
 
-            # Generate the first 100 pre keys for each backend
-            for backend in self.__backends:
-                await backend.generate_pre_keys(100)
-
-            # Publish the bundles for all backends
-            for backend in self.__backends:
-                await self._upload_bundle(await backend.get_bundle(self.__own_bare_jid, self.__own_device_id))
-
-            # Trigger a refresh of the own device lists for all backends, this will result in this device
-            # being added to the lists and the lists republished.
-            for backend in self.__backends:
-                await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
-
         # If there a mismatch between loaded and active namespaces, look for changes in the loaded backends.
         device, _ = await self.get_own_device_information()
         loaded_namespaces = frozenset(backend.namespace for backend in self.__backends)
@@ -438,18 +419,6 @@ class SessionManager(ABC):
                 f" {loaded_namespaces} vs. {active_namespaces} (now vs. previous run)"
             )
 
-            # Set the device active for all loaded namespaces
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
-                { namespace: True for namespace in loaded_namespaces }
-            )
-
-            # Store the updated list of loaded namespaces
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
-                list(loaded_namespaces)
-            )
-
             # Take care of the initialization of newly added backends
             for backend in self.__backends:
                 if backend.namespace not in active_namespaces:
@@ -465,7 +434,8 @@ class SessionManager(ABC):
                     ))
 
                     # Trigger a refresh of the own device list of the new backend, this will result in this
-                    # device being added to the lists and the lists republished.
+                    # device being added to the lists and the lists republished. As the last step, the new
+                    # backend is added to the stored device information of this device.
                     await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
 
             # Perform cleanup of removed backends
-- 
2.43.0


From bec8ed7a05e03974d487d1303a3fcea2b539d64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:24 +0000
Subject: [PATCH 5/8] fix: purge the queued empty messages of a bare JID as
 well

purge_bare_jid left them in storage.
---
 omemo/session_manager.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index c535cf4..3cb2632 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -584,6 +584,17 @@ class SessionManager(ABC):
                 f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}"
             )
 
+        # Delete queued empty messages
+        for backend in self.__backends:
+            queued_jids = (await storage.load_list(f"/queue/{backend.namespace}", str)).maybe([])
+            if bare_jid in queued_jids:
+                await storage.store(
+                    f"/queue/{backend.namespace}",
+                    [ queued_jid for queued_jid in queued_jids if queued_jid != bare_jid ]
+                )
+
+            await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")
+
         # Remove backend-specific data
         for backend in self.__backends:
             await backend.purge_bare_jid(bare_jid)
-- 
2.43.0


From 9949b86cdab9c1f98f7c1427353754b4273037a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:24 +0000
Subject: [PATCH 6/8] fix: don't cache values that were overwritten while being
 loaded

A load that was in flight while the same key was stored or deleted put the outdated value in the cache.
---
 omemo/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omemo/storage.py b/omemo/storage.py
index 4f344c3..90f217c 100644
--- a/omemo/storage.py
+++ b/omemo/storage.py
@@ -249,7 +249,8 @@ class Storage(ABC):
 
         value = await self._load(key)
         if self.__cache is not None:
-            self.__cache[key] = value
+            # Don't overwrite what was stored or deleted while the value was being loaded
+            value = self.__cache.setdefault(key, value)
         return value
 
     async def store(self, key: str, value: JSONType) -> None:
-- 
2.43.0


From 4f21f3bf999649e9ec631ef81cddd34b908c86cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:05 +0000
Subject: [PATCH 7/8] fix: don't rotate or upload the signed pre key of a
 backend purged while the rotation loop was waiting

The loop iterates over the backends loaded when the iteration started. If a backend was purged while the loop
waited to retry a failed bundle upload, the upload was still retried for the purged backend, and purged backends
further down the list had their signed pre key rotated and their bundle uploaded again.
---
 omemo/session_manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 3cb2632..323220e 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -646,6 +646,10 @@ class SessionManager(ABC):
 
             # For each backend, check whether the signed pre key is due for rotation
             for backend in self.__backends:
+                # The backend might have been purged while waiting to retry the upload of another bundle
+                if backend not in self.__backends:
+                    continue
+
                 signed_pre_key_age = await backend.signed_pre_key_age()
                 next_rotation = signed_pre_key_rotation_period - signed_pre_key_age
 
@@ -658,7 +662,7 @@ class SessionManager(ABC):
                     # Rotate the signed pre if necessary
                     await backend.rotate_signed_pre_key()
                     retry_delay = 60  # Start with one minute of retry delay
-                    while True:
+                    while backend in self.__backends:
                         try:
                             await self._upload_bundle(await backend.get_bundle(
                                 self.__own_bare_jid,
-- 
2.43.0


From 02db2ca40d019128b0510f9dfb94c63800423d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:33 +0000
Subject: [PATCH 8/8] fix: persist the session before sending an empty message

---
 omemo/session_manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 323220e..3be1506 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1631,6 +1631,11 @@ class SessionManager(ABC):
 
         content, plain_key_material = await backend.encrypt_empty()
         encrypted_key_material = await backend.encrypt_key_material(session, plain_key_material)
+
+        # Persist the advanced session before the message leaves, such that its key can't be used again if
+        # sending fails or is interrupted.
+        await backend.store_session(session)
+
         await self._send_message(Message(
             backend.namespace,
             self.__own_bare_jid,
@@ -1642,7 +1647,6 @@ class SessionManager(ABC):
                 else None
             )) })
         ), session.bare_jid)
-        await backend.store_session(session)
 
     async def encrypt(
         self,
-- 
2.43.0

