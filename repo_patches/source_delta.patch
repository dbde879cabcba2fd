From 6f151a678acbaeabd5f485bc06e0ecbfc00c34b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:07 +0000
Subject: [PATCH 01/66] fix: accept a request id again after its pending entry
 was removed

Removing a pending request leaves a tombstone that keeps the id. Adding the
same id again found that tombstone and was rejected as a duplicate.
---
 src/client/mcp_client_hash_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/mcp_client_hash_table.c b/src/client/mcp_client_hash_table.c
index 9033d32..8ae080a 100644
--- a/src/client/mcp_client_hash_table.c
+++ b/src/client/mcp_client_hash_table.c
@@ -202,7 +202,7 @@ int mcp_client_add_pending_request_entry(
     }
 
     // Check for duplicate ID (should never happen with proper ID generation)
-    if (entry->id == id) {
+    if (entry->id == id && entry->request.status != PENDING_REQUEST_INVALID) {
         mcp_log_error("Duplicate request ID found in hash table: %llu",
                      (unsigned long long)id);
         return -1;
-- 
2.43.0


From 00703bf68a6cb8a4fb2b46281f1a7f0f46c6995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:39 +0000
Subject: [PATCH 02/66] fix: keep a client call waiting until its own request
 is answered

A spurious wakeup ended the call with an internal error, the table entry was
used after the table had been resized by another caller, and the timeout
result of the wait was not recognised.
---
 src/client/mcp_client_request.c | 77 +++++++++++++++------------------
 1 file changed, 36 insertions(+), 41 deletions(-)

diff --git a/src/client/mcp_client_request.c b/src/client/mcp_client_request.c
index cbbe50c..171abb4 100644
--- a/src/client/mcp_client_request.c
+++ b/src/client/mcp_client_request.c
@@ -258,50 +258,45 @@ int mcp_client_send_and_wait(
 
     // Process the request if found and still waiting
     if (req_entry_wrapper && req_entry_wrapper->request.status == PENDING_REQUEST_WAITING) {
-        // Wait for the response with appropriate timeout handling
-        if (client->config.request_timeout_ms > 0) {
-            // Use timed wait with the configured timeout
-            mcp_log_debug("Waiting for response to request %llu with timeout %d ms",
-                         (unsigned long long)request_id, client->config.request_timeout_ms);
-
-            wait_result = mcp_cond_timedwait(
-                req_entry_wrapper->request.cv,
-                client->pending_requests_mutex,
-                client->config.request_timeout_ms
-            );
-        } else {
-            // Wait indefinitely
-            mcp_log_debug("Waiting indefinitely for response to request %llu",
-                         (unsigned long long)request_id);
+        // Wait until the request leaves the waiting state; wakeups may be spurious
+        do {
+            if (client->config.request_timeout_ms > 0) {
+                // Use timed wait with the configured timeout
+                mcp_log_debug("Waiting for response to request %llu with timeout %d ms",
+                             (unsigned long long)request_id, client->config.request_timeout_ms);
+
+                wait_result = mcp_cond_timedwait(
+                    req_entry_wrapper->request.cv,
+                    client->pending_requests_mutex,
+                    client->config.request_timeout_ms
+                );
+            } else {
+                // Wait indefinitely
+                mcp_log_debug("Waiting indefinitely for response to request %llu",
+                             (unsigned long long)request_id);
 
-            wait_result = mcp_cond_wait(
-                req_entry_wrapper->request.cv,
-                client->pending_requests_mutex
-            );
-        }
+                wait_result = mcp_cond_wait(
+                    req_entry_wrapper->request.cv,
+                    client->pending_requests_mutex
+                );
+            }
 
-        // Handle timeout and other wait errors with platform-specific code
-#ifdef ETIMEDOUT
-        // POSIX systems
-        if (wait_result == ETIMEDOUT) {
-            mcp_log_error("Request %llu timed out after %d ms",
-                         (unsigned long long)request_id, client->config.request_timeout_ms);
-            req_entry_wrapper->request.status = PENDING_REQUEST_TIMEOUT;
-        } else if (wait_result != 0) {
-            mcp_log_error("Wait failed for request %llu with code: %d (%s)",
-                         (unsigned long long)request_id, wait_result, strerror(wait_result));
-        }
-#else
-        // Windows and other systems
-        if (wait_result == 1) { // Windows timeout code
-            mcp_log_error("Request %llu timed out after %d ms",
-                         (unsigned long long)request_id, client->config.request_timeout_ms);
-            req_entry_wrapper->request.status = PENDING_REQUEST_TIMEOUT;
-        } else if (wait_result != 0) {
-            mcp_log_error("Wait failed for request %llu with code: %d",
-                         (unsigned long long)request_id, wait_result);
+            // The table may have been resized while the mutex was released
+            req_entry_wrapper = mcp_client_find_pending_request_entry(client, request_id, false);
+        } while (wait_result == 0 && req_entry_wrapper &&
+                 req_entry_wrapper->request.status == PENDING_REQUEST_WAITING);
+
+        // Handle timeout and other wait errors (a response that arrived meanwhile wins)
+        if (req_entry_wrapper && req_entry_wrapper->request.status == PENDING_REQUEST_WAITING) {
+            if (wait_result == -2) {
+                mcp_log_error("Request %llu timed out after %d ms",
+                             (unsigned long long)request_id, client->config.request_timeout_ms);
+                req_entry_wrapper->request.status = PENDING_REQUEST_TIMEOUT;
+            } else {
+                mcp_log_error("Wait failed for request %llu with code: %d",
+                             (unsigned long long)request_id, wait_result);
+            }
         }
-#endif
     } else if (req_entry_wrapper) {
         // Request found but not in waiting state
         mcp_log_debug("Request %llu found but not in waiting state (status: %d)",
-- 
2.43.0


From 7f5d07fb81f541d2c63f654f1655141ee78a7840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:38 +0000
Subject: [PATCH 03/66] fix: measure timed condition waits on the clock they
 are given

Deadlines were computed on the monotonic clock while the condition variable
used the real-time clock, so every timed wait ran out at once.
---
 src/common/mcp_sync.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/common/mcp_sync.c b/src/common/mcp_sync.c
index ed33ac2..4cc9446 100644
--- a/src/common/mcp_sync.c
+++ b/src/common/mcp_sync.c
@@ -198,7 +198,20 @@ mcp_cond_t* mcp_cond_create(void) {
     // Assume success
     return cond;
 #else
-    if (pthread_cond_init(&cond->cond, NULL) != 0) {
+    // Timed waits use the monotonic clock when available, so the condition
+    // variable has to measure its deadlines on the same clock
+    pthread_condattr_t attr;
+    if (pthread_condattr_init(&attr) != 0) {
+        mcp_log_error("Failed to initialize pthread condition variable attributes");
+        sync_free(cond);
+        return NULL;
+    }
+#if defined(_POSIX_TIMERS) && (_POSIX_TIMERS > 0) && defined(CLOCK_MONOTONIC)
+    pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
+#endif
+    int init_result = pthread_cond_init(&cond->cond, &attr);
+    pthread_condattr_destroy(&attr);
+    if (init_result != 0) {
         mcp_log_error("Failed to initialize pthread condition variable");
         sync_free(cond);
         return NULL;
@@ -280,13 +293,8 @@ int mcp_cond_timedwait(mcp_cond_t* cond, mcp_mutex_t* mutex, uint32_t timeout_ms
     ts.tv_sec += timeout_ms / 1000 + nsec / 1000000000;
     ts.tv_nsec = nsec % 1000000000;
 
-    // Use pthread_cond_timedwait with the monotonic clock
-    pthread_condattr_t attr;
-    pthread_condattr_init(&attr);
-    pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
-
+    // The condition variable was created with the monotonic clock
     int ret = pthread_cond_timedwait(&cond->cond, &mutex->mutex, &ts);
-    pthread_condattr_destroy(&attr);
 #else
     // Fall back to gettimeofday if monotonic clock is not available
     struct timeval tv;
-- 
2.43.0


From 0a4932967ffef7e601dc7e805aaa588175595053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:41 +0000
Subject: [PATCH 04/66] fix: do not let a leading ping authenticate the rest of
 a batch

An unauthenticated batch whose first request was a ping got a context with
access to everything, and the requests after the ping were executed with it.
---
 src/server/mcp_server_dispatch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/mcp_server_dispatch.c b/src/server/mcp_server_dispatch.c
index 2aad825..f030e4a 100644
--- a/src/server/mcp_server_dispatch.c
+++ b/src/server/mcp_server_dispatch.c
@@ -184,8 +184,8 @@ char* handle_message(mcp_server_t* server, const void* data, size_t size, int* e
 
     // For ping requests, we'll create a special anonymous auth context if authentication fails
     if (mcp_auth_verify(server, required_auth_type, credentials, &auth_context) != 0) {
-        if (is_ping_request) {
-            // For ping requests, create a special anonymous auth context
+        if (is_ping_request && message_count == 1) {
+            // For a lone ping request (never for a batch starting with one), create a special anonymous auth context
             mcp_log_debug("Creating anonymous auth context for ping request");
             auth_context = (mcp_auth_context_t*)calloc(1, sizeof(mcp_auth_context_t));
             if (auth_context) {
-- 
2.43.0


From 628dc15a1cf7f207e63f82a6e02ba9f937a3f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:41 +0000
Subject: [PATCH 05/66] fix: dispatch the performance metrics methods

The method names were compared with lengths one short of their own, so both
requests were answered with "Method not found".
---
 src/server/mcp_server_dispatch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/mcp_server_dispatch.c b/src/server/mcp_server_dispatch.c
index f030e4a..082019e 100644
--- a/src/server/mcp_server_dispatch.c
+++ b/src/server/mcp_server_dispatch.c
@@ -455,10 +455,10 @@ char* handle_request(mcp_server_t* server, mcp_arena_t* arena, const mcp_request
     else if (method_len == 23 && memcmp(method, "list_resource_templates", 23) == 0) {
         return handle_list_resource_templates_request(server, arena, request, auth_context, error_code);
     }
-    else if (method_len == 22 && memcmp(method, "get_performance_metrics", 22) == 0) {
+    else if (method_len == 23 && memcmp(method, "get_performance_metrics", 23) == 0) {
         return handle_get_performance_metrics_request(server, arena, request, auth_context, error_code);
     }
-    else if (method_len == 24 && memcmp(method, "reset_performance_metrics", 24) == 0) {
+    else if (method_len == 25 && memcmp(method, "reset_performance_metrics", 25) == 0) {
         return handle_reset_performance_metrics_request(server, arena, request, auth_context, error_code);
     }
     else {
-- 
2.43.0


From decb79279c766caed31f128056c16386e4f72ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:41 +0000
Subject: [PATCH 06/66] fix: treat an empty API key as no key

The configuration documents that no key is required when it is NULL or empty,
but with an empty one every message was refused.
---
 src/server/mcp_auth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/mcp_auth.c b/src/server/mcp_auth.c
index 895a4b8..765f86b 100644
--- a/src/server/mcp_auth.c
+++ b/src/server/mcp_auth.c
@@ -220,7 +220,8 @@ int mcp_auth_verify(mcp_server_t* server, mcp_auth_type_t auth_type, const char*
     mcp_log_debug("mcp_auth_verify called. Type: %d", auth_type);
 
     // --- No Authentication ---
-    if (auth_type == MCP_AUTH_NONE && server->config.api_key == NULL) {
+    if (auth_type == MCP_AUTH_NONE &&
+        (server->config.api_key == NULL || server->config.api_key[0] == '\0')) {
         // Only allow AUTH_NONE if no API key is configured on the server
         mcp_log_debug("Creating anonymous auth context (MCP_AUTH_NONE)");
         mcp_auth_context_t* context = create_wildcard_auth_context(MCP_AUTH_NONE, "anonymous", 0);
-- 
2.43.0


From 4f042de76e6a3b52cf164f9853af3a5eeb3142a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:10 +0000
Subject: [PATCH 07/66] fix: apply every role list registered for a template

Registering roles for a template that already had an entry (for example
because its validator was set first) appended a second entry that lookups
never reached, so the roles were silently ignored and every role was let in.
---
 src/server/mcp_template_security.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/server/mcp_template_security.c b/src/server/mcp_template_security.c
index 152232a..66020a6 100644
--- a/src/server/mcp_template_security.c
+++ b/src/server/mcp_template_security.c
@@ -146,6 +146,31 @@ int mcp_template_security_add_acl(
         }
     }
 
+    // If the template already has an entry, extend its roles instead of adding
+    // a second entry that lookups would never reach
+    for (size_t i = 0; i < security->entries_count; i++) {
+        template_acl_entry_t* existing = security->entries[i];
+        if (strcmp(existing->template_uri, template_uri) != 0) {
+            continue;
+        }
+        if (entry->allowed_roles_count > 0) {
+            size_t total = existing->allowed_roles_count + entry->allowed_roles_count;
+            char** roles = (char**)realloc(existing->allowed_roles, total * sizeof(char*));
+            if (roles == NULL) {
+                template_acl_entry_free(entry);
+                return -1;
+            }
+            for (size_t j = 0; j < entry->allowed_roles_count; j++) {
+                roles[existing->allowed_roles_count + j] = entry->allowed_roles[j];
+            }
+            existing->allowed_roles = roles;
+            existing->allowed_roles_count = total;
+            entry->allowed_roles_count = 0; // Role strings now belong to the existing entry
+        }
+        template_acl_entry_free(entry);
+        return 0;
+    }
+
     // Add the entry to the security context
     security->entries[security->entries_count++] = entry;
 
-- 
2.43.0


From 6640fc9c2bb8537e1afc42177ac1287a703d8b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:29 +0000
Subject: [PATCH 08/66] fix: count a closed WebSocket client only once

The active client count was decremented both by the close callback and by the
client cleanup it calls.  After two clients had come and gone the count wrapped
around and every later connection was refused.
---
 src/transport/mcp_websocket_server_callback.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/transport/mcp_websocket_server_callback.c b/src/transport/mcp_websocket_server_callback.c
index 69c5d17..c5cadfc 100644
--- a/src/transport/mcp_websocket_server_callback.c
+++ b/src/transport/mcp_websocket_server_callback.c
@@ -72,14 +72,11 @@ int ws_server_callback(struct lws* wsi, enum lws_callback_reasons reason,
                 ws_server_lock_all_clients(data);
 
                 // Clear client data and update statistics
-                ws_server_clear_client_bit(data->client_bitmap, client->client_id, data->bitmap_size);
-                data->active_clients--;
+                ws_server_client_cleanup(client, data);
 
                 mcp_log_ws_info("client %d disconnected (active: %u, max: %u)",
                                 client->client_id, data->active_clients, data->max_clients);
 
-                ws_server_client_cleanup(client, data);
-
                 ws_server_unlock_all_clients(data);
             }
             break;
-- 
2.43.0


From 6b2bc7c06ddb412e9697b52eadf401eb7654ab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:29 +0000
Subject: [PATCH 09/66] fix: do not reallocate WebSocket receive buffers owned
 by the buffer pool

A message larger than a pool buffer was grown with realloc() on a pointer into
the pool's block, corrupting the heap.
---
 src/transport/mcp_websocket_server_client.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/transport/mcp_websocket_server_client.c b/src/transport/mcp_websocket_server_client.c
index 4dd2350..b6a1ab0 100644
--- a/src/transport/mcp_websocket_server_client.c
+++ b/src/transport/mcp_websocket_server_client.c
@@ -141,8 +141,23 @@ int ws_server_client_resize_buffer(ws_client_t* client, size_t needed_size, ws_s
         }
     }
 
+    // A buffer of exactly the pool's size is taken for a pool buffer later on
+    if (server_data && server_data->buffer_pool && new_len == buffer_size) {
+        new_len += 4096;
+    }
+
     // Fall back to regular allocation if pool is not available or buffer is too large
-    if (client->receive_buffer) {
+    if (client->receive_buffer && server_data && server_data->buffer_pool &&
+        client->receive_buffer_len == buffer_size) {
+        // The old buffer belongs to the pool and cannot be reallocated
+        new_buffer = (char*)malloc(new_len);
+        if (new_buffer) {
+            memcpy(new_buffer, client->receive_buffer, client->receive_buffer_used);
+            mcp_buffer_pool_release(server_data->buffer_pool, client->receive_buffer);
+            server_data->total_buffer_memory += new_len;
+            server_data->buffer_allocs++;
+        }
+    } else if (client->receive_buffer) {
         // Try to reuse existing buffer with realloc for better performance
         new_buffer = (char*)realloc(client->receive_buffer, new_len);
 
-- 
2.43.0


From ab6957b730886c658e54ccb54c271f942c691539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:34 +0000
Subject: [PATCH 10/66] fix: do not treat an overlong Origin header as no
 origin

---
 src/transport/mcp_sthttp_callbacks.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/transport/mcp_sthttp_callbacks.c b/src/transport/mcp_sthttp_callbacks.c
index 8a89b14..86343da 100644
--- a/src/transport/mcp_sthttp_callbacks.c
+++ b/src/transport/mcp_sthttp_callbacks.c
@@ -301,6 +301,9 @@ static void extract_origin_header(struct lws* wsi, sthttp_session_data_t* sessio
     int origin_len = lws_hdr_copy(wsi, session->origin, sizeof(session->origin), WSI_TOKEN_ORIGIN);
     if (origin_len > 0) {
         mcp_log_debug("Origin header: %s", session->origin);
+    } else if (lws_hdr_total_length(wsi, WSI_TOKEN_ORIGIN) > 0) {
+        // The header does not fit: treat it as an opaque origin, not as no origin
+        strcpy(session->origin, "null");
     } else {
         session->origin[0] = '\0';
     }
-- 
2.43.0


From f7071e6b55282f5387132c3e5917977a8d9abcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:35 +0000
Subject: [PATCH 11/66] fix: check the origin of session termination requests

---
 src/transport/mcp_sthttp_threads.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/transport/mcp_sthttp_threads.c b/src/transport/mcp_sthttp_threads.c
index 3aa7d98..70692ec 100644
--- a/src/transport/mcp_sthttp_threads.c
+++ b/src/transport/mcp_sthttp_threads.c
@@ -432,6 +432,13 @@ int handle_mcp_delete_request(struct lws* wsi, sthttp_transport_data_t* data, st
         return -1;
     }
 
+    // Validate origin if required
+    if (data->validate_origin && session_data->origin[0] != '\0') {
+        if (!validate_origin(data, session_data->origin)) {
+            return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Origin not allowed");
+        }
+    }
+
     // Session termination requires a session ID
     if (!session_data->has_session || data->session_manager == NULL) {
         return send_http_error_response(wsi, HTTP_STATUS_BAD_REQUEST, "Session termination requires a session");
-- 
2.43.0


From bcee01679d315b09dae077530c8e30cd66771a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:44 +0000
Subject: [PATCH 12/66] fix: drop a request whose body could not be terminated

---
 src/transport/mcp_sthttp_callbacks.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transport/mcp_sthttp_callbacks.c b/src/transport/mcp_sthttp_callbacks.c
index 86343da..1280814 100644
--- a/src/transport/mcp_sthttp_callbacks.c
+++ b/src/transport/mcp_sthttp_callbacks.c
@@ -61,7 +61,9 @@ static int lws_callback_sthttp(struct lws* wsi, enum lws_callback_reasons reason
 
         case LWS_CALLBACK_HTTP_BODY_COMPLETION:
             // Handle HTTP request body completion
-            handle_http_body_completion(wsi, data, session);
+            if (handle_http_body_completion(wsi, data, session) != 0) {
+                return -1;
+            }
 
             // Now process the POST request with complete body
             mcp_log_debug("Processing completed POST request for URI: %s", session->request_uri);
-- 
2.43.0


From 0e9e15a3b96c09feafb6135dfd4178b3c2999731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:14 +0000
Subject: [PATCH 13/66] fix: test the ends of a shared list while holding its
 lock

---
 src/common/mcp_list.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/common/mcp_list.c b/src/common/mcp_list.c
index 61289d3..66caafa 100644
--- a/src/common/mcp_list.c
+++ b/src/common/mcp_list.c
@@ -264,12 +264,16 @@ void* mcp_list_remove(mcp_list_t* list, mcp_list_node_t* node, void (*free_data)
 }
 
 void* mcp_list_pop_front(mcp_list_t* list) {
-    if (!list || !list->head) return NULL;
+    if (!list) return NULL;
 
     // Lock
     MCP_LIST_LOCK(list);
 
     mcp_list_node_t* node = list->head;
+    if (!node) {
+        MCP_LIST_UNLOCK(list);
+        return NULL;
+    }
     void* data = node->data;
 
     list->head = node->next;
@@ -293,12 +297,16 @@ void* mcp_list_pop_front(mcp_list_t* list) {
 }
 
 void* mcp_list_pop_back(mcp_list_t* list) {
-    if (!list || !list->tail) return NULL;
+    if (!list) return NULL;
 
     // Lock
     MCP_LIST_LOCK(list);
 
     mcp_list_node_t* node = list->tail;
+    if (!node) {
+        MCP_LIST_UNLOCK(list);
+        return NULL;
+    }
     void* data = node->data;
 
     list->tail = node->prev;
@@ -322,11 +330,17 @@ void* mcp_list_pop_back(mcp_list_t* list) {
 }
 
 void mcp_list_move_to_front(mcp_list_t* list, mcp_list_node_t* node) {
-    if (!list || !node || node == list->head) return;
+    if (!list || !node) return;
 
     // Lock
     MCP_LIST_LOCK(list);
 
+    // Nothing to do if the node is already at the front
+    if (node == list->head) {
+        MCP_LIST_UNLOCK(list);
+        return;
+    }
+
     // Remove node from its current position
     if (node->prev) {
         node->prev->next = node->next;
-- 
2.43.0


From 19f75542cd064d3afb96b3a6e556a84b370d48bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:36 +0000
Subject: [PATCH 14/66] fix: free the start of the vector array after a partial
 send

mcp_socket_send_vectors advanced its pointer to the temporary array past the
entries already sent and then passed the advanced pointer to free.
---
 src/common/mcp_socket_utils.c | 44 +++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/common/mcp_socket_utils.c b/src/common/mcp_socket_utils.c
index a47e1db..c73347d 100644
--- a/src/common/mcp_socket_utils.c
+++ b/src/common/mcp_socket_utils.c
@@ -796,6 +796,8 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
         temp_iov = iov;
     }
 
+    // temp_iov advances over fully sent entries: remember where the array starts
+    mcp_iovec_t* iov_start = temp_iov;
     int current_iovcnt = iovcnt;
     int result = 0;
 
@@ -803,8 +805,8 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
         // Check stop flag
         if (stop_flag && *stop_flag) {
             mcp_log_debug("send_vectors (Win) aborted by stop flag");
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
+            if (iov_start != iov) {
+                socket_utils_free(iov_start);
             }
             return -1;
         }
@@ -821,8 +823,8 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
                 error_code == WSAENOTCONN ||
                 error_code == WSAECONNABORTED) {
                 mcp_log_debug("send_vectors (Win): Connection closed/reset (socket %d, error %d)", (int)sock, error_code);
-                if (temp_iov != iov) {
-                    socket_utils_free(temp_iov);
+                if (iov_start != iov) {
+                    socket_utils_free(iov_start);
                 }
                 return -1;
             }
@@ -835,16 +837,16 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
 
             // Other errors
             mcp_log_error("send_vectors (Win) WSASend failed (socket %d): Error %d", (int)sock, error_code);
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
+            if (iov_start != iov) {
+                socket_utils_free(iov_start);
             }
             return -1;
         }
 
         if (bytes_sent_this_call == 0) {
             mcp_log_error("send_vectors (Win) sent 0 bytes unexpectedly (socket %d)", (int)sock);
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
+            if (iov_start != iov) {
+                socket_utils_free(iov_start);
             }
             return -1;
         }
@@ -876,8 +878,8 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
         }
     }
 
-    if (temp_iov != iov) {
-        socket_utils_free(temp_iov);
+    if (iov_start != iov) {
+        socket_utils_free(iov_start);
     }
 #else
     // POSIX optimized implementation
@@ -893,14 +895,16 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
         temp_iov = iov;
     }
 
+    // temp_iov advances over fully sent entries: remember where the array starts
+    mcp_iovec_t* iov_start = temp_iov;
     int current_iovcnt = iovcnt;
 
     while (total_sent < total_to_send) {
         // Check stop flag
         if (stop_flag && *stop_flag) {
             mcp_log_debug("send_vectors (POSIX) aborted by stop flag");
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
+            if (iov_start != iov) {
+                socket_utils_free(iov_start);
             }
             return -1;
         }
@@ -929,8 +933,8 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
                 // Connection closed
                 mcp_log_debug("send_vectors (POSIX): Connection closed/reset (socket %d, error %d - %s)",
                              (int)sock, error_code, strerror(error_code));
-                if (temp_iov != iov) {
-                    socket_utils_free(temp_iov);
+                if (iov_start != iov) {
+                    socket_utils_free(iov_start);
                 }
                 return -1;
             }
@@ -938,16 +942,16 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
             // Other errors
             mcp_log_error("send_vectors (POSIX) writev failed (socket %d): Error %d (%s)",
                          (int)sock, error_code, strerror(error_code));
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
+            if (iov_start != iov) {
+                socket_utils_free(iov_start);
             }
             return -1;
         }
 
         if (bytes_sent == 0) {
             mcp_log_error("send_vectors (POSIX) sent 0 bytes unexpectedly (socket %d)", (int)sock);
-            if (temp_iov != iov) {
-                socket_utils_free(temp_iov);
+            if (iov_start != iov) {
+                socket_utils_free(iov_start);
             }
             return -1;
         }
@@ -979,8 +983,8 @@ int mcp_socket_send_vectors(socket_t sock, mcp_iovec_t* iov, int iovcnt, volatil
         }
     }
 
-    if (temp_iov != iov) {
-        socket_utils_free(temp_iov);
+    if (iov_start != iov) {
+        socket_utils_free(iov_start);
     }
 #endif
 
-- 
2.43.0


From 2d5be2390990b4197beff5c8ec000aaac7757097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:36 +0000
Subject: [PATCH 15/66] fix: do not wrap the buffer size of a maximum-length
 frame

---
 src/common/mcp_framing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/mcp_framing.c b/src/common/mcp_framing.c
index 54f1073..b24f4a8 100644
--- a/src/common/mcp_framing.c
+++ b/src/common/mcp_framing.c
@@ -183,7 +183,7 @@ int mcp_framing_recv_message(socket_t sock, char** message_data_out, uint32_t* m
     // 4. Allocate Buffer for Message Body (+1 for potential null terminator)
     // Note: The framing layer itself doesn't guarantee null termination,
     // but allocating +1 makes it easier for JSON/string layers above.
-    char* message_buf = (char*)malloc(message_length_host + 1);
+    char* message_buf = (char*)malloc((size_t)message_length_host + 1);
     if (message_buf == NULL) {
         mcp_log_error("mcp_framing_recv_message: Failed to allocate buffer for message size %u", message_length_host);
         return -1;
-- 
2.43.0


From da821fa46dc39b1e0ee1641ebc44dc447c54abeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:36 +0000
Subject: [PATCH 16/66] fix: leave no uninitialised entries when a batch has
 empty buffers

---
 src/common/mcp_socket_utils.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/common/mcp_socket_utils.c b/src/common/mcp_socket_utils.c
index c73347d..fc6af39 100644
--- a/src/common/mcp_socket_utils.c
+++ b/src/common/mcp_socket_utils.c
@@ -1578,6 +1578,7 @@ int mcp_socket_send_batch(socket_t sock, const mcp_socket_buffer_t** buffers, in
 
     // Calculate total bytes to send for logging
     size_t total_bytes = 0;
+    int iov_count = 0;
 
     // Fill IOV array from cache-aligned buffer structures
     for (int i = 0; i < buffer_count; i++) {
@@ -1587,12 +1588,13 @@ int mcp_socket_send_batch(socket_t sock, const mcp_socket_buffer_t** buffers, in
         }
 
 #ifdef _WIN32
-        iov[i].buf = buffers[i]->buffer;
-        iov[i].len = (ULONG)buffers[i]->used;
+        iov[iov_count].buf = buffers[i]->buffer;
+        iov[iov_count].len = (ULONG)buffers[i]->used;
 #else
-        iov[i].iov_base = buffers[i]->buffer;
-        iov[i].iov_len = buffers[i]->used;
+        iov[iov_count].iov_base = buffers[i]->buffer;
+        iov[iov_count].iov_len = buffers[i]->used;
 #endif
+        iov_count++;
         total_bytes += buffers[i]->used;
     }
 
@@ -1600,7 +1602,7 @@ int mcp_socket_send_batch(socket_t sock, const mcp_socket_buffer_t** buffers, in
                  buffer_count, total_bytes, (int)sock);
 
     // Use vectored send
-    int result = mcp_socket_send_vectors(sock, iov, buffer_count, stop_flag);
+    int result = mcp_socket_send_vectors(sock, iov, iov_count, stop_flag);
 
     // Free IOV array
     socket_utils_free(iov);
-- 
2.43.0


From 6ce66a4a3fea8fe30ce745f56ed65368582d83e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:01 +0000
Subject: [PATCH 17/66] fix: refuse arena requests whose rounded size wraps
 around

A request within 7 bytes of the largest size rounded up to zero and was given
a pointer to no memory; slightly smaller ones wrapped when added to the space
in use and overlapped earlier allocations.
---
 src/common/mcp_arena.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/common/mcp_arena.c b/src/common/mcp_arena.c
index 83d1fab..eb6393b 100644
--- a/src/common/mcp_arena.c
+++ b/src/common/mcp_arena.c
@@ -4,6 +4,7 @@
 #include "mcp_memory_constants.h"
 #include "mcp_thread_cache.h"
 #include "mcp_log.h"
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -149,12 +150,17 @@ void* mcp_arena_alloc(mcp_arena_t* arena, size_t size) {
         }
     }
 
+    // A size this large cannot be met, and rounding it up would wrap around
+    if (size > SIZE_MAX - 7) {
+        return NULL;
+    }
+
     // Align size to 8 bytes for better performance
     size_t aligned_size = MCP_ARENA_ALIGN_UP(size);
 
     // Fast path for small allocations that fit in the current block
     mcp_arena_block_t* current_block = arena->current_block;
-    if (current_block && current_block->used + aligned_size <= current_block->size) {
+    if (current_block && aligned_size <= current_block->size - current_block->used) {
         void* ptr = (char*)current_block->data + current_block->used;
         current_block->used += aligned_size;
         arena->total_allocated += aligned_size;
@@ -169,7 +175,7 @@ void* mcp_arena_alloc(mcp_arena_t* arena, size_t size) {
     // For allocations slightly larger than default, increase by a factor to reduce fragmentation
     size_t block_size;
     if (aligned_size > arena->default_block_size) {
-        if (aligned_size > 4 * arena->default_block_size) {
+        if (aligned_size / 4 >= arena->default_block_size || aligned_size > SIZE_MAX / 2) {
             // For very large allocations, use exactly what's needed
             block_size = aligned_size;
         } else {
-- 
2.43.0


From 2c8d778dcab84167514f4aaf096207c6d68616f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:28 +0000
Subject: [PATCH 18/66] fix: free the blocks a memory pool grew by when it is
 destroyed

---
 src/common/mcp_memory_pool.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/common/mcp_memory_pool.c b/src/common/mcp_memory_pool.c
index cbc9af5..8543210 100644
--- a/src/common/mcp_memory_pool.c
+++ b/src/common/mcp_memory_pool.c
@@ -3,6 +3,7 @@
 #include "mcp_thread_cache.h"
 #include "mcp_sync.h"
 #include "mcp_log.h"
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
@@ -149,19 +150,21 @@ void mcp_memory_pool_destroy(mcp_memory_pool_t* pool) {
 
     mcp_mutex_lock(pool->lock);
 
-    // If we allocated a contiguous memory block, free it
-    if (pool->memory_block) {
-        free(pool->memory_block);
-    } else {
-        // Otherwise, free each block individually
-        mcp_block_header_t* current = pool->free_list;
-        while (current) {
-            mcp_block_header_t* next = current->next;
+    // Free the blocks that are not part of the contiguous memory block
+    uintptr_t block_start = (uintptr_t)pool->memory_block;
+    uintptr_t block_end = block_start + (pool->memory_block ? pool->initial_blocks * pool->block_size : 0);
+    mcp_block_header_t* current = pool->free_list;
+    while (current) {
+        mcp_block_header_t* next = current->next;
+        if ((uintptr_t)current < block_start || (uintptr_t)current >= block_end) {
             free(current);
-            current = next;
         }
+        current = next;
     }
 
+    // If we allocated a contiguous memory block, free it
+    free(pool->memory_block);
+
     mcp_mutex_unlock(pool->lock);
     mcp_mutex_destroy(pool->lock);
 
-- 
2.43.0


From 84d387f58ea8598d5b8a221c014bf96cd412d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:28 +0000
Subject: [PATCH 19/66] fix: hold the lock while an object pool grows towards
 its maximum

---
 src/common/mcp_object_pool.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/common/mcp_object_pool.c b/src/common/mcp_object_pool.c
index b4f6cc2..6bed97d 100644
--- a/src/common/mcp_object_pool.c
+++ b/src/common/mcp_object_pool.c
@@ -339,11 +339,12 @@ void* mcp_object_pool_acquire(mcp_object_pool_t* pool) {
         return (void*)node;
     }
 
-    // Free list is empty, try to allocate a new one if allowed
+    // Free list is empty, try to allocate a new one if allowed - statistics
+    // updated inside allocate_new_object. The lock is kept so that two threads
+    // cannot both take the last place under the maximum.
+    obj = allocate_new_object(pool);
     mcp_mutex_unlock(pool->lock);
-
-    // Allocate a new object - statistics updated inside allocate_new_object
-    return allocate_new_object(pool);
+    return obj;
 }
 
 bool mcp_object_pool_release(mcp_object_pool_t* pool, void* obj) {
-- 
2.43.0


From edb9b74d01d0cbc6cc34a68b3a0795546e33e9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:28 +0000
Subject: [PATCH 20/66] fix: free the objects an object pool grew by when it is
 destroyed

---
 src/common/mcp_object_pool.c | 77 ++++++++++++++----------------------
 1 file changed, 30 insertions(+), 47 deletions(-)

diff --git a/src/common/mcp_object_pool.c b/src/common/mcp_object_pool.c
index 6bed97d..42b8d19 100644
--- a/src/common/mcp_object_pool.c
+++ b/src/common/mcp_object_pool.c
@@ -54,6 +54,7 @@ typedef struct mcp_object_pool_s {
     mcp_pool_node_t* free_list_head;   // Head of the linked list of free objects
     mcp_mutex_t* lock;                 // Mutex for thread safety
     void* memory_block;                // Pointer to the initially allocated contiguous block (if any)
+    size_t memory_block_size;          // Size of that block in bytes
 
     // Statistics - updated atomically when possible
     size_t peak_usage;                 // Peak number of objects in use
@@ -61,7 +62,7 @@ typedef struct mcp_object_pool_s {
 
     // Padding to ensure the structure occupies a full cache line
     char padding[MCP_CACHE_LINE_SIZE -
-                ((2 * sizeof(size_t) + 6 * sizeof(size_t) +
+                ((3 * sizeof(size_t) + 6 * sizeof(size_t) +
                   sizeof(mcp_pool_node_t*) + sizeof(mcp_mutex_t*) +
                   sizeof(void*)) % MCP_CACHE_LINE_SIZE)];
 } MCP_CACHE_ALIGNED mcp_object_pool_t;
@@ -101,6 +102,12 @@ static void aligned_free(void* ptr) {
 #endif
 }
 
+// Helper function to tell whether an object lies in the initial contiguous block
+static bool in_memory_block(const mcp_object_pool_t* pool, const void* obj) {
+    uintptr_t start = (uintptr_t)pool->memory_block;
+    return pool->memory_block && (uintptr_t)obj >= start && (uintptr_t)obj < start + pool->memory_block_size;
+}
+
 // Helper function to allocate a new object (not from the pool initially)
 static void* allocate_new_object(mcp_object_pool_t* pool) {
     if (pool->max_capacity > 0 && pool->total_objects >= pool->max_capacity) {
@@ -162,6 +169,7 @@ mcp_object_pool_t* mcp_object_pool_create(size_t object_size, size_t initial_cap
         // Use aligned allocation for better memory access
         pool->memory_block = aligned_malloc(initial_capacity * pool->aligned_size);
         if (pool->memory_block) {
+            pool->memory_block_size = initial_capacity * pool->aligned_size;
             pool->total_objects = initial_capacity;
             pool->free_objects = initial_capacity;
             char* current_obj_ptr = (char*)pool->memory_block;
@@ -216,26 +224,8 @@ void mcp_object_pool_destroy(mcp_object_pool_t* pool) {
                     continue;
                 }
 
-                // Check if the object is part of the memory block (if we have one)
-                if (pool->memory_block) {
-                    char* block_start = (char*)pool->memory_block;
-                    char* block_end = block_start + (pool->total_objects * pool->aligned_size);
-
-                    // Only free if the object is within our memory block
-                    if ((char*)obj >= block_start && (char*)obj < block_end) {
-                        // Object is part of our memory block, safe to free
-                        // But actually we don't need to free individual objects if they're part of the memory block
-                        // as we'll free the whole block later
-                    } else {
-                        // Object is not part of our memory block, might be individually allocated
-                        // or might be invalid - log a warning and skip it
-                        mcp_log_warn("Object pool destroy: cached object %p is outside memory block range [%p-%p]",
-                                    obj, (void*)block_start, (void*)block_end);
-                        continue;
-                    }
-                } else {
-                    // We don't have a memory block, so objects were individually allocated
-                    // We'll try to free them, but be careful
+                // Objects in the memory block are freed with it
+                if (!in_memory_block(pool, obj)) {
                     aligned_free(obj);
                 }
             }
@@ -248,36 +238,29 @@ void mcp_object_pool_destroy(mcp_object_pool_t* pool) {
 
     mcp_mutex_lock(pool->lock);
 
-    // If objects were allocated in a single block, just free the block
-    if (pool->memory_block) {
-        aligned_free(pool->memory_block);
-        pool->memory_block = NULL;
-    } else {
-        // Otherwise, need to free individually (only those currently in the free list)
-        // Note: This assumes acquired objects are managed/freed elsewhere or released before destroy.
-        // A more robust implementation might track all allocated objects.
-        mcp_pool_node_t* current = pool->free_list_head;
-        mcp_pool_node_t* next;
-        size_t freed_count = 0;
-
-        while (current) {
-            next = current->next;
-            // Add NULL check before freeing
-            if (current != NULL) {
-                aligned_free(current);
-                freed_count++;
-            }
-            current = next;
+    // Free the objects in the free list that were allocated individually
+    // Note: This assumes acquired objects are managed/freed elsewhere or released before destroy.
+    // A more robust implementation might track all allocated objects.
+    mcp_pool_node_t* current = pool->free_list_head;
+    size_t freed_count = 0;
+    while (current) {
+        mcp_pool_node_t* next = current->next;
+        if (!in_memory_block(pool, current)) {
+            aligned_free(current);
         }
+        freed_count++;
+        current = next;
+    }
 
-        if (freed_count != pool->free_objects && pool->free_objects > 0) {
-            mcp_log_warn("Mismatch freeing objects: freed %zu, expected %zu (acquired objects not freed)",
-                        freed_count, pool->free_objects);
-        }
-        // Ideally, we should also free objects that were acquired but not released.
-        // This simple version doesn't track acquired objects separately from the initial block.
+    if (freed_count != pool->free_objects && pool->free_objects > 0) {
+        mcp_log_warn("Mismatch freeing objects: freed %zu, expected %zu (acquired objects not freed)",
+                    freed_count, pool->free_objects);
     }
 
+    // If objects were allocated in a single block, free the block
+    aligned_free(pool->memory_block);
+    pool->memory_block = NULL;
+
     pool->free_list_head = NULL;
     pool->total_objects = 0;
     pool->free_objects = 0;
-- 
2.43.0


From 40aa98c984d13581f19df23b943e5d70a78aa98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:02 +0000
Subject: [PATCH 21/66] fix: refuse tasks that do not fit into a full
 work-stealing queue

A push onto a full queue overwrote the oldest queued task, which was then
never run while the newer one ran twice.
---
 src/common/mcp_thread_pool_deque.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/common/mcp_thread_pool_deque.c b/src/common/mcp_thread_pool_deque.c
index 922ab2a..50b6050 100644
--- a/src/common/mcp_thread_pool_deque.c
+++ b/src/common/mcp_thread_pool_deque.c
@@ -11,10 +11,11 @@
 // Push task onto the bottom of the deque (owner thread only)
 bool deque_push_bottom(work_stealing_deque_t* deque, mcp_task_t task) {
     size_t b = load_size(&deque->bottom);
-    // Do not need to load top for push, only check against capacity later if needed
-    // size_t t = load_size(&deque->top);
-    // size_t size = b - t;
-    // if (size >= (deque->capacity_mask + 1)) { return false; } // Check happens implicitly below
+    // Refuse the task rather than overwrite one that is still queued
+    size_t t = load_size(&deque->top);
+    if (b - t > deque->capacity_mask) {
+        return false;
+    }
 
     size_t index = b & deque->capacity_mask;
     deque->buffer[index] = task;
-- 
2.43.0


From f654349a80f1f1629868ea53f1e179eac122e6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:32 +0000
Subject: [PATCH 22/66] fix: serialise task submission with the owner of a
 work-stealing queue

The queue allows one thread at its bottom end, but tasks are pushed there by
every submitting thread while the worker pops. Two submitters, or a submitter
and the worker, could lose a task or run one twice.
---
 .../internal/mcp_thread_pool_internal.h       |  3 +-
 src/common/mcp_thread_pool.c                  |  1 +
 src/common/mcp_thread_pool_deque.c            | 31 +++++++++++++++++--
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/common/internal/mcp_thread_pool_internal.h b/src/common/internal/mcp_thread_pool_internal.h
index 564f95a..38391ab 100644
--- a/src/common/internal/mcp_thread_pool_internal.h
+++ b/src/common/internal/mcp_thread_pool_internal.h
@@ -70,9 +70,10 @@ typedef struct {
 
     // Bottom index - accessed primarily by owner
     MCP_CACHE_ALIGNED volatile size_t bottom; /**< Index for adding/removing by owner (incremented/decremented by owner). */
+    volatile size_t bottom_lock;              /**< Non-zero while a submitter or the owner works on the bottom end. */
 
     // Padding to separate bottom from other fields
-    char pad2[MCP_CACHE_LINE_SIZE - sizeof(size_t)];
+    char pad2[MCP_CACHE_LINE_SIZE - 2 * sizeof(size_t)];
 
     // Capacity must be power of 2
     MCP_CACHE_ALIGNED size_t capacity_mask;   /**< Mask for circular buffer indexing (capacity - 1). */
diff --git a/src/common/mcp_thread_pool.c b/src/common/mcp_thread_pool.c
index 4606c0e..45d8b05 100644
--- a/src/common/mcp_thread_pool.c
+++ b/src/common/mcp_thread_pool.c
@@ -90,6 +90,7 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
             pool->deques[i].capacity_mask = pool->deque_capacity - 1;
             pool->deques[i].top = 0;
             pool->deques[i].bottom = 0;
+            pool->deques[i].bottom_lock = 0;
         }
     } else {
         allocation_failed = true;
diff --git a/src/common/mcp_thread_pool_deque.c b/src/common/mcp_thread_pool_deque.c
index 50b6050..586a4e6 100644
--- a/src/common/mcp_thread_pool_deque.c
+++ b/src/common/mcp_thread_pool_deque.c
@@ -8,12 +8,29 @@
  */
 #include "internal/mcp_thread_pool_internal.h"
 
-// Push task onto the bottom of the deque (owner thread only)
+// Tasks are submitted from any thread, so the bottom end is used by one thread at a time
+static void lock_bottom(work_stealing_deque_t* deque) {
+    while (!compare_and_swap_size(&deque->bottom_lock, 0, 1)) {
+#ifdef _WIN32
+        SwitchToThread();
+#else
+        sched_yield();
+#endif
+    }
+}
+
+static void unlock_bottom(work_stealing_deque_t* deque) {
+    compare_and_swap_size(&deque->bottom_lock, 1, 0);
+}
+
+// Push task onto the bottom of the deque (any submitting thread)
 bool deque_push_bottom(work_stealing_deque_t* deque, mcp_task_t task) {
+    lock_bottom(deque);
     size_t b = load_size(&deque->bottom);
     // Refuse the task rather than overwrite one that is still queued
     size_t t = load_size(&deque->top);
     if (b - t > deque->capacity_mask) {
+        unlock_bottom(deque);
         return false;
     }
 
@@ -27,15 +44,20 @@ bool deque_push_bottom(work_stealing_deque_t* deque, mcp_task_t task) {
     __sync_synchronize();
 #endif
 
-    // Increment bottom (owner only, volatile write is sufficient)
+    // Increment bottom (bottom lock held, volatile write is sufficient)
     deque->bottom = b + 1;
+    unlock_bottom(deque);
     return true;
 }
 
 // Pop task from the bottom of the deque (owner thread only)
 bool deque_pop_bottom(work_stealing_deque_t* deque, mcp_task_t* task) {
+    lock_bottom(deque);
     size_t b = load_size(&deque->bottom);
-    if (b == 0) return false;
+    if (b == 0) {
+        unlock_bottom(deque);
+        return false;
+    }
     b = b - 1;
     // Volatile write
     deque->bottom = b;
@@ -55,6 +77,7 @@ bool deque_pop_bottom(work_stealing_deque_t* deque, mcp_task_t* task) {
         // Deque was empty or became empty due to concurrent steal
         // Reset bottom to match top
         deque->bottom = t;
+        unlock_bottom(deque);
         return false;
     }
 
@@ -67,6 +90,7 @@ bool deque_pop_bottom(work_stealing_deque_t* deque, mcp_task_t* task) {
         if (!compare_and_swap_size(&deque->top, t, t + 1)) {
             // Thief stole the item first
             deque->bottom = t + 1; // Acknowledge thief won
+            unlock_bottom(deque);
             return false; // Failed to pop
         }
         // Successfully took the last item
@@ -74,6 +98,7 @@ bool deque_pop_bottom(work_stealing_deque_t* deque, mcp_task_t* task) {
     }
     // If size > 0, we successfully popped without contention on the last item
 
+    unlock_bottom(deque);
     return true;
 }
 
-- 
2.43.0


From 6c110dbf985f7868736f088d2305a05436c097bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:32 +0000
Subject: [PATCH 23/66] fix: let workers steal from the queues of workers that
 have left

Tasks are submitted to every queue, but after the pool shrank workers only
looked at the queues of the remaining workers, so the others were never run.
The same count is zero while the first worker starts, which divided by zero.
---
 src/common/mcp_thread_pool_worker.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/common/mcp_thread_pool_worker.c b/src/common/mcp_thread_pool_worker.c
index 832fb27..2514588 100644
--- a/src/common/mcp_thread_pool_worker.c
+++ b/src/common/mcp_thread_pool_worker.c
@@ -47,7 +47,7 @@ void* thread_pool_worker(void* arg) {
     worker_locals.my_index = worker_locals.worker_data->worker_index;
     worker_locals.my_deque = &worker_locals.pool->deques[worker_locals.my_index];
     worker_locals.steal_attempts = 0;
-    worker_locals.last_victim_index = (worker_locals.my_index + 1) % worker_locals.pool->thread_count;
+    worker_locals.last_victim_index = (worker_locals.my_index + 1) % worker_locals.pool->max_thread_count;
     worker_locals.scan_interval = 0;
     worker_locals.backoff_shift = 0;
 
@@ -128,7 +128,7 @@ void* thread_pool_worker(void* arg) {
             bool all_empty = true;
 
             // Check all deques
-            for (size_t i = 0; i < worker_locals.pool->thread_count; i++) {
+            for (size_t i = 0; i < worker_locals.pool->max_thread_count; i++) {
                 size_t bottom = load_size(&worker_locals.pool->deques[i].bottom);
                 size_t top = load_size(&worker_locals.pool->deques[i].top);
 
@@ -147,7 +147,7 @@ void* thread_pool_worker(void* arg) {
         }
 
         // 3. Try to steal using an optimized strategy
-        if (worker_locals.pool->thread_count > 1) {
+        if (worker_locals.pool->max_thread_count > 1) {
             size_t victim_index = worker_locals.my_index; // Default to own index (will be changed)
 
             // Increment scan interval counter
@@ -160,7 +160,7 @@ void* thread_pool_worker(void* arg) {
                 size_t max_tasks = 0;
 
                 // Full scan of all deques
-                for (size_t i = 0; i < worker_locals.pool->thread_count; i++) {
+                for (size_t i = 0; i < worker_locals.pool->max_thread_count; i++) {
                     if (i == worker_locals.my_index) continue; // Skip own deque
 
                     size_t bottom = load_size(&worker_locals.pool->deques[i].bottom);
@@ -187,7 +187,7 @@ void* thread_pool_worker(void* arg) {
                 if (bottom <= top) {
                     // Try a random victim, but not ourselves
                     do {
-                        victim_index = rand() % worker_locals.pool->thread_count;
+                        victim_index = rand() % worker_locals.pool->max_thread_count;
                     } while (victim_index == worker_locals.my_index);
                 } else {
                     // Last victim still has tasks
@@ -272,7 +272,7 @@ void* thread_pool_worker(void* arg) {
                     bool all_empty = true;
 
                     // Check all deques
-                    for (size_t i = 0; i < worker_locals.pool->thread_count; i++) {
+                    for (size_t i = 0; i < worker_locals.pool->max_thread_count; i++) {
                         size_t bottom = load_size(&worker_locals.pool->deques[i].bottom);
                         size_t top = load_size(&worker_locals.pool->deques[i].top);
 
@@ -297,7 +297,7 @@ void* thread_pool_worker(void* arg) {
                 // If we timed out, check if there are tasks in any deque
                 if (wait_result == -2) { // -2 is timeout
                     bool found_tasks = false;
-                    for (size_t i = 0; i < worker_locals.pool->thread_count && !found_tasks; i++) {
+                    for (size_t i = 0; i < worker_locals.pool->max_thread_count && !found_tasks; i++) {
                         size_t bottom = load_size(&worker_locals.pool->deques[i].bottom);
                         size_t top = load_size(&worker_locals.pool->deques[i].top);
                         if (bottom > top) {
-- 
2.43.0


From 7e48a53211fe1984c639714d33387a5799af1932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:32 +0000
Subject: [PATCH 24/66] fix: count a worker before its thread starts

A worker that ran before it was counted took itself for surplus and left.
---
 src/common/mcp_thread_pool.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/mcp_thread_pool.c b/src/common/mcp_thread_pool.c
index 45d8b05..15154cd 100644
--- a/src/common/mcp_thread_pool.c
+++ b/src/common/mcp_thread_pool.c
@@ -145,14 +145,16 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
         // Store the worker argument for later cleanup
         pool->worker_args[i] = arg;
 
+        // Count the worker before it runs: it leaves when its index is not below the count
+        pool->thread_count++;
         if (mcp_thread_create(&(pool->threads[i]), thread_pool_worker, arg) != 0) {
             mcp_log_error("Failed to create worker thread");
+            pool->thread_count--;
             free(arg);
             pool->worker_args[i] = NULL;
             allocation_failed = true;
             break;
         }
-        pool->thread_count++;
         pool->started++;
     }
 
-- 
2.43.0


From 459d83bb3355e806956f81d23026316703969f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:32 +0000
Subject: [PATCH 25/66] fix: wait for every submitted task of a thread pool

Refused tasks were subtracted from the tasks to wait for although they were
never counted as submitted, and a task that a worker had taken but not yet
marked active was not waited for.
---
 src/common/mcp_thread_pool_tasks.c | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/common/mcp_thread_pool_tasks.c b/src/common/mcp_thread_pool_tasks.c
index 2ae9652..eb7e580 100644
--- a/src/common/mcp_thread_pool_tasks.c
+++ b/src/common/mcp_thread_pool_tasks.c
@@ -105,8 +105,8 @@ int mcp_thread_pool_wait(mcp_thread_pool_t* pool, unsigned int timeout_ms) {
         return 0;
     }
 
-    // Calculate the number of tasks that should be completed
-    size_t target_completed = tasks_to_wait_for - pool->tasks_failed;
+    // Every submitted task is completed; refused tasks are not among the submitted ones
+    size_t target_completed = tasks_to_wait_for;
 
     // If all tasks have already completed, return immediately
     if (pool->tasks_completed >= target_completed) {
@@ -125,24 +125,6 @@ int mcp_thread_pool_wait(mcp_thread_pool_t* pool, unsigned int timeout_ms) {
     while ((pool->tasks_completed < target_completed) &&
            (wait_time < timeout_ms || timeout_ms == 0)) {
 
-        // Check if all deques are empty and no tasks are active
-        bool all_empty = true;
-        for (size_t i = 0; i < pool->max_thread_count; i++) {
-            size_t bottom = load_size(&pool->deques[i].bottom);
-            size_t top = load_size(&pool->deques[i].top);
-
-            if (bottom > top) {
-                all_empty = false;
-                break;
-            }
-        }
-
-        // If all deques are empty and no tasks are active, we're done
-        if (all_empty && pool->active_tasks == 0) {
-            result = 0;
-            break;
-        }
-
         // Wait for a signal or timeout
         int wait_result = mcp_cond_timedwait(pool->notify, pool->cond_mutex, sleep_interval);
 
-- 
2.43.0


From 454b27060aa06861dc07ffc03c84a31894915311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:18 +0000
Subject: [PATCH 26/66] fix: free the queues once when creating a thread pool
 fails

The queue buffers were freed twice, and pointers that had not been set yet
were freed as well.
---
 src/common/mcp_thread_pool.c | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/common/mcp_thread_pool.c b/src/common/mcp_thread_pool.c
index 15154cd..9b3f877 100644
--- a/src/common/mcp_thread_pool.c
+++ b/src/common/mcp_thread_pool.c
@@ -52,8 +52,8 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
 
     // Allocate memory for threads, deques array, and sync primitives
     pool->threads = (mcp_thread_t*)malloc(sizeof(mcp_thread_t) * thread_count);
-    pool->deques = (work_stealing_deque_t*)malloc(sizeof(work_stealing_deque_t) * thread_count);
-    pool->worker_args = (worker_arg_t**)malloc(sizeof(worker_arg_t*) * thread_count);
+    pool->deques = (work_stealing_deque_t*)calloc(thread_count, sizeof(work_stealing_deque_t));
+    pool->worker_args = (worker_arg_t**)calloc(thread_count, sizeof(worker_arg_t*));
     pool->worker_status = (volatile int*)calloc(thread_count, sizeof(int));
     pool->tasks_stolen = (volatile size_t*)calloc(thread_count, sizeof(size_t));
     pool->tasks_executed = (volatile size_t*)calloc(thread_count, sizeof(size_t));
@@ -77,13 +77,6 @@ mcp_thread_pool_t* mcp_thread_pool_create(size_t thread_count, size_t queue_size
 #endif
             if (pool->deques[i].buffer == NULL) {
                 allocation_failed = true;
-                for (size_t j = 0; j < i; ++j) { // Free previously allocated buffers
-                    #ifdef _WIN32
-                        _aligned_free(pool->deques[j].buffer);
-                    #else
-                        free(pool->deques[j].buffer);
-                    #endif
-                }
                 break;
             }
             // Initialize deque state
-- 
2.43.0


From 3efd9e90d3f8233fd46a4ee2d610c1e408608326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:33 +0000
Subject: [PATCH 27/66] fix: refuse string buffer growth that would wrap around

A length near the largest size wrapped to a small requirement that looked
satisfied, or doubled the capacity to zero and looped forever.
---
 src/common/mcp_string_utils.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/mcp_string_utils.c b/src/common/mcp_string_utils.c
index d94addb..5dbc634 100644
--- a/src/common/mcp_string_utils.c
+++ b/src/common/mcp_string_utils.c
@@ -2,6 +2,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include <stdio.h>
+#include <stdint.h>
 
 /* Define platform-specific inline directives */
 #if defined(_MSC_VER)
@@ -72,6 +73,8 @@ int dyn_buf_ensure_capacity(dyn_buf_t* db, size_t additional_len) {
         return -1;
     // +1 for null terminator
     size_t required_capacity = db->length + additional_len + 1;
+    if (additional_len >= SIZE_MAX / 2 - db->length)
+        return -1; // The capacity could not be calculated without wrapping around
     if (required_capacity <= db->capacity)
         return 0;
 
-- 
2.43.0


From ec6df92663e265ebdc293fb8b9bc182a25998def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:33 +0000
Subject: [PATCH 28/66] fix: escape all control characters in JSON strings

Control characters without a short escape were copied as they are, which is
not valid JSON.
---
 src/common/mcp_string_utils.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/common/mcp_string_utils.c b/src/common/mcp_string_utils.c
index 5dbc634..559fa31 100644
--- a/src/common/mcp_string_utils.c
+++ b/src/common/mcp_string_utils.c
@@ -174,8 +174,8 @@ int dyn_buf_append_json_string(dyn_buf_t* db, const char* str) {
                 additional_len += 2;
                 break;
             default:
-                // Normal character
-                additional_len += 1;
+                // Normal character, or \u00XX for other control characters
+                additional_len += (unsigned char)c < 0x20 ? 6 : 1;
                 break;
         }
     }
@@ -200,7 +200,16 @@ int dyn_buf_append_json_string(dyn_buf_t* db, const char* str) {
             case '\n': *dest++ = '\\'; *dest++ = 'n'; break;
             case '\r': *dest++ = '\\'; *dest++ = 'r'; break;
             case '\t': *dest++ = '\\'; *dest++ = 't'; break;
-            default:   *dest++ = c; break;
+            default:
+                if ((unsigned char)c < 0x20) {
+                    static const char hex[] = "0123456789abcdef";
+                    *dest++ = '\\'; *dest++ = 'u'; *dest++ = '0'; *dest++ = '0';
+                    *dest++ = hex[(unsigned char)c >> 4];
+                    *dest++ = hex[(unsigned char)c & 0x0f];
+                } else {
+                    *dest++ = c;
+                }
+                break;
         }
     }
 
-- 
2.43.0


From ac581575bd775b20f5ee7e406fa5909d1e5fc2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:13:06 +0000
Subject: [PATCH 29/66] fix: do not evict name lookups that are in use

With every entry in use, slot 0 was freed under its holders, and a slot chosen
before the lookup could be taken into use by another thread before it was
replaced.
---
 .../mcp_connection_pool_dns_cache.c           | 61 +++++++++----------
 1 file changed, 28 insertions(+), 33 deletions(-)

diff --git a/src/connection_pool/mcp_connection_pool_dns_cache.c b/src/connection_pool/mcp_connection_pool_dns_cache.c
index 0c0d224..24b2bd9 100644
--- a/src/connection_pool/mcp_connection_pool_dns_cache.c
+++ b/src/connection_pool/mcp_connection_pool_dns_cache.c
@@ -166,11 +166,6 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
 
     time_t current_time = time(NULL);
     struct addrinfo* result = NULL;
-    int empty_slot = -1;
-    int oldest_slot = 0;
-    int least_used_slot = 0;
-    time_t oldest_time = current_time;
-    uint32_t least_hits = UINT32_MAX;
 
     mcp_rwlock_read_lock(g_dns_cache.rwlock);
 
@@ -178,25 +173,6 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
     for (int i = 0; i < DNS_CACHE_SIZE; i++) {
         mcp_mutex_lock(g_dns_cache.entries[i].mutex);
 
-        // Track empty slots and replacement candidates
-        if (g_dns_cache.entries[i].hostname[0] == '\0') {
-            if (empty_slot == -1) {
-                empty_slot = i;
-            }
-        } else if (g_dns_cache.entries[i].ref_count == 0) {
-            // Track oldest entry
-            if (g_dns_cache.entries[i].timestamp < oldest_time) {
-                oldest_time = g_dns_cache.entries[i].timestamp;
-                oldest_slot = i;
-            }
-
-            // Track least frequently used entry
-            if (g_dns_cache.entries[i].hit_count < least_hits) {
-                least_hits = g_dns_cache.entries[i].hit_count;
-                least_used_slot = i;
-            }
-        }
-
         // Check if this entry matches our hostname and port
         if (g_dns_cache.entries[i].hostname[0] != '\0' &&
             strcmp(g_dns_cache.entries[i].hostname, cache_key) == 0) {
@@ -266,15 +242,27 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
         // Update statistics
         g_dns_cache.misses++;
 
-        // Choose a slot for the new entry - prefer empty, then least used, then oldest
-        int slot;
-        if (empty_slot != -1) {
-            slot = empty_slot;
-        } else if (least_used_slot != oldest_slot) {
-            // If we have a least used slot that's different from oldest, prefer it
-            slot = least_used_slot;
-        } else {
-            slot = oldest_slot;
+        // Choose a slot for the new entry - prefer empty, then the least used
+        // (oldest first) among the entries nobody holds
+        int slot = -1;
+        for (int i = 0; i < DNS_CACHE_SIZE; i++) {
+            if (g_dns_cache.entries[i].hostname[0] == '\0') {
+                slot = i;
+                break;
+            }
+            if (g_dns_cache.entries[i].ref_count == 0 &&
+                (slot == -1 ||
+                 g_dns_cache.entries[i].hit_count < g_dns_cache.entries[slot].hit_count ||
+                 (g_dns_cache.entries[i].hit_count == g_dns_cache.entries[slot].hit_count &&
+                  g_dns_cache.entries[i].timestamp < g_dns_cache.entries[slot].timestamp))) {
+                slot = i;
+            }
+        }
+
+        if (slot == -1) {
+            // Every entry is in use: the caller gets a result that is not cached
+            mcp_rwlock_write_unlock(g_dns_cache.rwlock);
+            return new_addr_info;
         }
 
         mcp_mutex_lock(g_dns_cache.entries[slot].mutex);
@@ -327,10 +315,12 @@ void dns_cache_release(struct addrinfo* addr_info) {
     mcp_rwlock_read_lock(g_dns_cache.rwlock);
 
     // Find the entry containing this addr_info
+    bool cached = false;
     for (int i = 0; i < DNS_CACHE_SIZE; i++) {
         mcp_mutex_lock(g_dns_cache.entries[i].mutex);
 
         if (g_dns_cache.entries[i].addr_info == addr_info) {
+            cached = true;
             // Found it, decrement reference count
             if (g_dns_cache.entries[i].ref_count > 0) {
                 g_dns_cache.entries[i].ref_count--;
@@ -348,4 +338,9 @@ void dns_cache_release(struct addrinfo* addr_info) {
     }
 
     mcp_rwlock_read_unlock(g_dns_cache.rwlock);
+
+    // A result that did not fit into the cache belongs to the caller alone
+    if (!cached) {
+        freeaddrinfo(addr_info);
+    }
 }
-- 
2.43.0


From 41245b5187944d87e4a060a30a05f01a38fe2bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:13:06 +0000
Subject: [PATCH 30/66] fix: do not share cached lookups between names with a
 long common prefix

---
 src/connection_pool/mcp_connection_pool_dns_cache.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/connection_pool/mcp_connection_pool_dns_cache.c b/src/connection_pool/mcp_connection_pool_dns_cache.c
index 24b2bd9..fff88d3 100644
--- a/src/connection_pool/mcp_connection_pool_dns_cache.c
+++ b/src/connection_pool/mcp_connection_pool_dns_cache.c
@@ -162,7 +162,9 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
     }
 
     char cache_key[DNS_CACHE_MAX_HOSTNAME];
-    snprintf(cache_key, sizeof(cache_key), "%s:%d", hostname, port);
+    int key_len = snprintf(cache_key, sizeof(cache_key), "%s:%d", hostname, port);
+    // A name too long for its key is looked up each time
+    bool cacheable = key_len >= 0 && (size_t)key_len < sizeof(cache_key);
 
     time_t current_time = time(NULL);
     struct addrinfo* result = NULL;
@@ -170,7 +172,7 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
     mcp_rwlock_read_lock(g_dns_cache.rwlock);
 
     // Look for the hostname in the cache
-    for (int i = 0; i < DNS_CACHE_SIZE; i++) {
+    for (int i = 0; cacheable && i < DNS_CACHE_SIZE; i++) {
         mcp_mutex_lock(g_dns_cache.entries[i].mutex);
 
         // Check if this entry matches our hostname and port
@@ -245,7 +247,7 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
         // Choose a slot for the new entry - prefer empty, then the least used
         // (oldest first) among the entries nobody holds
         int slot = -1;
-        for (int i = 0; i < DNS_CACHE_SIZE; i++) {
+        for (int i = 0; cacheable && i < DNS_CACHE_SIZE; i++) {
             if (g_dns_cache.entries[i].hostname[0] == '\0') {
                 slot = i;
                 break;
@@ -260,7 +262,7 @@ struct addrinfo* dns_cache_get(const char* hostname, int port, const struct addr
         }
 
         if (slot == -1) {
-            // Every entry is in use: the caller gets a result that is not cached
+            // Every entry is in use or the name is too long: the caller gets a result that is not cached
             mcp_rwlock_write_unlock(g_dns_cache.rwlock);
             return new_addr_info;
         }
-- 
2.43.0


From b1f943e4f647d49301a6737ecc6cf4ef6fbfce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:13:06 +0000
Subject: [PATCH 31/66] fix: free the lock of the name cache

---
 src/connection_pool/mcp_connection_pool_dns_cache.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/connection_pool/mcp_connection_pool_dns_cache.c b/src/connection_pool/mcp_connection_pool_dns_cache.c
index fff88d3..7574ac9 100644
--- a/src/connection_pool/mcp_connection_pool_dns_cache.c
+++ b/src/connection_pool/mcp_connection_pool_dns_cache.c
@@ -54,7 +54,7 @@ void dns_cache_init() {
             for (int j = 0; j < i; j++) {
                 mcp_mutex_destroy(g_dns_cache.entries[j].mutex);
             }
-            mcp_rwlock_destroy(g_dns_cache.rwlock);
+            mcp_rwlock_free(g_dns_cache.rwlock);
             mcp_mutex_destroy(g_dns_cache.mutex);
             return;
         }
@@ -97,7 +97,7 @@ void dns_cache_cleanup() {
 
     mcp_mutex_unlock(g_dns_cache.mutex);
     mcp_mutex_destroy(g_dns_cache.mutex);
-    mcp_rwlock_destroy(g_dns_cache.rwlock);
+    mcp_rwlock_free(g_dns_cache.rwlock);
 
     g_dns_cache.initialized = false;
     mcp_log_info("DNS cache cleaned up");
-- 
2.43.0


From 0e18364bee98ab03d9e6fec1c43b4fd754fbf194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:45 +0000
Subject: [PATCH 32/66] fix: give every MQTT client a session file of its own

The path buffer was one byte short, which cut the last character off every
client identifier, and characters that are not allowed in file names were all
replaced by an underscore, so different clients overwrote each other.
---
 src/transport/mqtt_session_persistence.c | 73 ++++++++++--------------
 1 file changed, 29 insertions(+), 44 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index a30b373..d3d8692 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -29,8 +29,8 @@
 #define MQTT_SESSION_MAGIC 0x4D435053  // "MCPS"
 
 // Internal helper functions that assume lock is already held
-static bool mqtt_session_is_expired_internal(const char* client_id);
-static int mqtt_session_delete_internal(const char* client_id);
+static bool mqtt_session_is_expired_internal(const char* path);
+static int mqtt_session_delete_internal(const char* path);
 
 static char* g_storage_path = NULL;
 static mcp_mutex_t* g_session_mutex = NULL;
@@ -123,22 +123,29 @@ static char* get_session_path(const char* client_id) {
         return NULL;
     }
 
-    // Create a safe filename from client_id
-    char* safe_id = mcp_strdup(client_id);
+    // Create a safe filename from client_id; invalid filename characters are
+    // written as %XX so that different clients never share a file
+    static const char hex[] = "0123456789ABCDEF";
+    char* safe_id = (char*)malloc(strlen(client_id) * 3 + 1);
     if (!safe_id) {
         return NULL;
     }
 
-    // Replace invalid filename characters
-    for (char* p = safe_id; *p; ++p) {
-        if (*p == '\\' || *p == '/' || *p == ':' || *p == '*' || 
-            *p == '?' || *p == '"' || *p == '<' || *p == '>' || *p == '|') {
-            *p = '_';
+    char* out = safe_id;
+    for (const char* p = client_id; *p; ++p) {
+        if (*p == '\\' || *p == '/' || *p == ':' || *p == '*' ||
+            *p == '?' || *p == '"' || *p == '<' || *p == '>' || *p == '|' || *p == '%') {
+            *out++ = '%';
+            *out++ = hex[(unsigned char)*p >> 4];
+            *out++ = hex[(unsigned char)*p & 0x0F];
+        } else {
+            *out++ = *p;
         }
     }
+    *out = '\0';
 
     // Allocate path buffer
-    size_t path_len = strlen(g_storage_path) + strlen(safe_id) + 6; // +6 for "/.mcp_"
+    size_t path_len = strlen(g_storage_path) + strlen(safe_id) + 7; // +7 for "/.mcp_" and the terminator
     char* path = (char*)malloc(path_len);
     if (!path) {
         free(safe_id);
@@ -854,14 +861,15 @@ int mqtt_session_cleanup_expired(void) {
                 // Extract client ID from filename
                 const char* filename = find_data.cFileName;
                 if (strncmp(filename, ".mcp_", 5) == 0) {
-                    const char* client_id = filename + 5;
+                    char* path = mcp_format_string("%s/%s", g_storage_path, filename);
 
-                    if (mqtt_session_is_expired_internal(client_id)) {
-                        if (mqtt_session_delete_internal(client_id) == 0) {
+                    if (path && mqtt_session_is_expired_internal(path)) {
+                        if (mqtt_session_delete_internal(path) == 0) {
                             cleaned_count++;
-                            mcp_log_info("Cleaned expired session for client: %s", client_id);
+                            mcp_log_info("Cleaned expired session: %s", path);
                         }
                     }
+                    free(path);
                 }
             }
         } while (FindNextFile(find_handle, &find_data));
@@ -875,14 +883,15 @@ int mqtt_session_cleanup_expired(void) {
         struct dirent* entry;
         while ((entry = readdir(dir)) != NULL) {
             if (strncmp(entry->d_name, ".mcp_", 5) == 0) {
-                const char* client_id = entry->d_name + 5;
+                char* path = mcp_format_string("%s/%s", g_storage_path, entry->d_name);
 
-                if (mqtt_session_is_expired_internal(client_id)) {
-                    if (mqtt_session_delete_internal(client_id) == 0) {
+                if (path && mqtt_session_is_expired_internal(path)) {
+                    if (mqtt_session_delete_internal(path) == 0) {
                         cleaned_count++;
-                        mcp_log_info("Cleaned expired session for client: %s", client_id);
+                        mcp_log_info("Cleaned expired session: %s", path);
                     }
                 }
+                free(path);
             }
         }
         closedir(dir);
@@ -929,22 +938,12 @@ void mqtt_session_persistence_cleanup(void) {
 }
 
 // Internal helper function - assumes lock is already held
-static bool mqtt_session_is_expired_internal(const char* client_id) {
-    if (!client_id) {
-        return true;
-    }
-
+static bool mqtt_session_is_expired_internal(const char* path) {
     uint64_t created_time, last_access_time;
     uint32_t expiry_interval;
 
-    char* path = get_session_path(client_id);
-    if (!path) {
-        return true;
-    }
-
     FILE* fp = fopen(path, "rb");
     if (!fp) {
-        free(path);
         return true;
     }
 
@@ -952,7 +951,6 @@ static bool mqtt_session_is_expired_internal(const char* client_id) {
     uint32_t magic;
     if (fread(&magic, sizeof(magic), 1, fp) != 1 || magic != MQTT_SESSION_MAGIC) {
         fclose(fp);
-        free(path);
         return true;
     }
 
@@ -960,7 +958,6 @@ static bool mqtt_session_is_expired_internal(const char* client_id) {
     uint16_t version;
     if (fread(&version, sizeof(version), 1, fp) != 1) {
         fclose(fp);
-        free(path);
         return true;
     }
 
@@ -969,12 +966,10 @@ static bool mqtt_session_is_expired_internal(const char* client_id) {
         fread(&last_access_time, sizeof(last_access_time), 1, fp) != 1 ||
         fread(&expiry_interval, sizeof(expiry_interval), 1, fp) != 1) {
         fclose(fp);
-        free(path);
         return true;
     }
 
     fclose(fp);
-    free(path);
 
     if (expiry_interval == 0) {
         return false; // No expiry
@@ -986,16 +981,7 @@ static bool mqtt_session_is_expired_internal(const char* client_id) {
 }
 
 // Internal helper function - assumes lock is already held
-static int mqtt_session_delete_internal(const char* client_id) {
-    if (!client_id) {
-        return -1;
-    }
-
-    char* path = get_session_path(client_id);
-    if (!path) {
-        return -1;
-    }
-
+static int mqtt_session_delete_internal(const char* path) {
     int result = 0;
 #ifdef _WIN32
     if (_unlink(path) != 0) {
@@ -1007,6 +993,5 @@ static int mqtt_session_delete_internal(const char* client_id) {
     }
 #endif
 
-    free(path);
     return result;
 }
-- 
2.43.0


From 7c87a1ca6fcd1eab3f020dfd21e2c0d3b707706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:45 +0000
Subject: [PATCH 33/66] fix: save MQTT sessions with empty payloads

---
 src/transport/mqtt_session_persistence.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index d3d8692..232d075 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -46,7 +46,10 @@ static volatile bool g_persistence_shutting_down = false;
  * @return 0 on success, -1 on failure
  */
 static int safe_fwrite(const void* ptr, size_t size, size_t count, FILE* stream) {
-    if (!ptr || !stream || size == 0 || count == 0) {
+    if (count == 0) {
+        return 0; // Nothing to write, an empty payload for example
+    }
+    if (!ptr || !stream || size == 0) {
         mcp_log_error("Invalid parameters for file write operation");
         return -1;
     }
-- 
2.43.0


From 693d65632686756087e983f248d80bd0c1fa18fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:45 +0000
Subject: [PATCH 34/66] fix: load MQTT sessions in the order they were saved

Subscriptions and in-flight messages came back in reverse order, and the active
flag of a loaded subscription was not set.
---
 src/transport/mqtt_session_persistence.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index 232d075..7b34d3e 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -464,6 +464,14 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
     }
 
     // Read subscriptions
+    struct mqtt_subscription** sub_end = &session->subscriptions;
+    while (*sub_end) {
+        sub_end = &(*sub_end)->next;
+    }
+    struct mqtt_inflight_message** inflight_end = &session->inflight_messages;
+    while (*inflight_end) {
+        inflight_end = &(*inflight_end)->next;
+    }
     for (uint16_t i = 0; i < sub_count; i++) {
         uint16_t topic_len;
         if (fread(&topic_len, sizeof(topic_len), 1, fp) != 1) {
@@ -501,8 +509,10 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
 
         sub->topic = topic;
         sub->qos = qos;
-        sub->next = session->subscriptions;
-        session->subscriptions = sub;
+        sub->active = true;
+        sub->next = NULL;
+        *sub_end = sub; // Keep the order they were saved in
+        sub_end = &sub->next;
     }
 
     // Read last packet ID
@@ -592,8 +602,9 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
             }
 
             // Add to list
-            inflight->next = session->inflight_messages;
-            session->inflight_messages = inflight;
+            inflight->next = NULL;
+            *inflight_end = inflight;
+            inflight_end = &inflight->next;
         }
     }
 
-- 
2.43.0


From 498fed0fd33ea69168166d94e06cb67445fafc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:45 +0000
Subject: [PATCH 35/66] fix: refuse truncated MQTT session files

---
 src/transport/mqtt_session_persistence.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index 7b34d3e..db94f6e 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -518,13 +518,15 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
     // Read last packet ID
     if (fread(&session->last_packet_id, sizeof(session->last_packet_id), 1, fp) != 1) {
         mcp_log_warn("Failed to read last packet ID for client: %s", client_id);
-        // Continue anyway, this is not critical
-        session->last_packet_id = 1;
+        goto cleanup_and_exit;
     }
 
     // Read in-flight message count
     uint16_t inflight_count = 0;
-    if (fread(&inflight_count, sizeof(inflight_count), 1, fp) == 1) {
+    if (fread(&inflight_count, sizeof(inflight_count), 1, fp) != 1) {
+        mcp_log_warn("Failed to read in-flight message count for client: %s", client_id);
+        goto cleanup_and_exit;
+    } else {
         // Read in-flight messages
         for (uint16_t i = 0; i < inflight_count; i++) {
             struct mqtt_inflight_message* inflight = malloc(sizeof(struct mqtt_inflight_message));
-- 
2.43.0


From 57b800203fa2a017ce7e50a93a056c675c69e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:45 +0000
Subject: [PATCH 36/66] fix: delete an expired MQTT session while holding the
 lock

A session saved by another thread right after the lock was released was
deleted in its place.
---
 src/transport/mqtt_session_persistence.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index db94f6e..154481f 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -410,10 +410,10 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
             mcp_log_info("Session expired for client: %s (elapsed: %llu, expiry: %u)",
                         client_id, (unsigned long long)elapsed_seconds, session->session_expiry_interval);
             fclose(fp);
+            // Delete expired session file before another thread can save a new one
+            mqtt_session_delete_internal(path);
             free(path);
             mcp_mutex_unlock(g_session_mutex);
-            // Delete expired session file
-            mqtt_session_delete(client_id);
             return -1;
         }
     }
@@ -574,7 +574,7 @@ int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
                 goto cleanup_and_exit;
             }
 
-            inflight->payload = malloc(payload_len);
+            inflight->payload = malloc(payload_len ? payload_len : 1);
             if (!inflight->payload) {
                 free(inflight->topic);
                 free(inflight);
-- 
2.43.0


From 8360eca1b5884aed68f4c7b9242a0cd26bcd22ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:45 +0000
Subject: [PATCH 37/66] fix: replace a saved MQTT session only by a complete
 one

The file was overwritten in place, so a failed or interrupted save destroyed
the session saved before, and errors when closing the file went unnoticed.
---
 src/transport/mqtt_session_persistence.c | 30 +++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/transport/mqtt_session_persistence.c b/src/transport/mqtt_session_persistence.c
index 154481f..de50ad3 100644
--- a/src/transport/mqtt_session_persistence.c
+++ b/src/transport/mqtt_session_persistence.c
@@ -160,6 +160,22 @@ static char* get_session_path(const char* client_id) {
     return path;
 }
 
+// Path a session is written to before it replaces the saved one
+static char* get_session_temp_path(const char* client_id) {
+    char* path = get_session_path(client_id);
+    char* temp_path = path ? mcp_format_string("%s/.tmp%s", g_storage_path, path + strlen(g_storage_path) + 1) : NULL;
+    free(path);
+    return temp_path;
+}
+
+static int replace_file(const char* from, const char* to) {
+#ifdef _WIN32
+    return MoveFileExA(from, to, MOVEFILE_REPLACE_EXISTING) ? 0 : -1;
+#else
+    return rename(from, to);
+#endif
+}
+
 int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session) {
     if (!client_id || !session) {
         return -1;
@@ -179,7 +195,9 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
         return -1;
     }
 
-    char* path = get_session_path(client_id);
+    // Write to a temporary file first, so that the session saved before is
+    // replaced only by a complete one
+    char* path = get_session_temp_path(client_id);
     if (!path) {
         mcp_mutex_unlock(g_session_mutex);
         return -1;
@@ -324,10 +342,16 @@ int mqtt_session_save(const char* client_id, const mqtt_session_data_t* session)
         inflight = inflight->next;
     }
 
-    fclose(fp);
+    int result = fclose(fp) == 0 ? 0 : -1;
+    char* final_path = get_session_path(client_id);
+    if (result != 0 || !final_path || replace_file(path, final_path) != 0) {
+        mcp_log_error("Failed to complete session file: %s (errno: %d)", path, errno);
+        result = -1;
+    }
+    free(final_path);
     free(path);
     mcp_mutex_unlock(g_session_mutex);
-    return 0;
+    return result;
 }
 
 int mqtt_session_load(const char* client_id, mqtt_session_data_t* session) {
-- 
2.43.0


From ca3a40f16b5303f60f9eb5aa93a37a6197d7694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:40:15 +0000
Subject: [PATCH 38/66] fix: decode surrogate pairs in JSON strings

Characters outside the basic plane written as two escapes were turned into two
three-byte sequences, which is not UTF-8.
---
 src/json/mcp_json_parser.c | 51 +++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/json/mcp_json_parser.c b/src/json/mcp_json_parser.c
index db6e9bd..9bd3cf9 100644
--- a/src/json/mcp_json_parser.c
+++ b/src/json/mcp_json_parser.c
@@ -28,22 +28,48 @@ static void skip_whitespace(const char** json) {
     }
 }
 
-// Helper function to convert a 4-digit hex Unicode escape to UTF-8
-static int hex_to_utf8(const char* hex, char* utf8) {
-    // Convert 4 hex digits to a Unicode code point
-    unsigned int code_point = 0;
+// Helper function to read the 4 hex digits of a Unicode escape
+static bool hex4(const char* hex, unsigned int* code_point) {
+    *code_point = 0;
     for (int i = 0; i < 4; i++) {
-        code_point <<= 4;
+        *code_point <<= 4;
         if (hex[i] >= '0' && hex[i] <= '9') {
-            code_point |= hex[i] - '0';
+            *code_point |= hex[i] - '0';
         } else if (hex[i] >= 'a' && hex[i] <= 'f') {
-            code_point |= hex[i] - 'a' + 10;
+            *code_point |= hex[i] - 'a' + 10;
         } else if (hex[i] >= 'A' && hex[i] <= 'F') {
-            code_point |= hex[i] - 'A' + 10;
+            *code_point |= hex[i] - 'A' + 10;
         } else {
-            return 0; // Invalid hex digit
+            return false; // Invalid hex digit
         }
     }
+    return true;
+}
+
+// Helper function to convert a 4-digit hex Unicode escape to UTF-8
+// and the low half of a surrogate pair (an escape of the form \uDC00..\uDFFF
+// right after the digits) into the same character; *used is set to the number
+// of input characters taken.
+static int hex_to_utf8(const char* hex, char* utf8, int* used) {
+    // Convert 4 hex digits to a Unicode code point
+    unsigned int code_point = 0;
+    if (!hex4(hex, &code_point)) {
+        return 0; // Invalid hex digit
+    }
+    *used = 4;
+
+    // A high surrogate followed by a low one is a single character
+    unsigned int low = 0;
+    if (code_point >= 0xD800 && code_point <= 0xDBFF && hex[4] == '\\' && hex[5] == 'u' &&
+        hex4(hex + 6, &low) && low >= 0xDC00 && low <= 0xDFFF) {
+        code_point = 0x10000 + ((code_point - 0xD800) << 10) + (low - 0xDC00);
+        *used = 10;
+        utf8[0] = (char)(0xF0 | (code_point >> 18));
+        utf8[1] = (char)(0x80 | ((code_point >> 12) & 0x3F));
+        utf8[2] = (char)(0x80 | ((code_point >> 6) & 0x3F));
+        utf8[3] = (char)(0x80 | (code_point & 0x3F));
+        return 4;
+    }
 
     // Convert code point to UTF-8
     if (code_point < 0x80) {
@@ -129,8 +155,9 @@ static char* parse_string(const char** json) {
                     }
 
                     // Convert \uXXXX to UTF-8
-                    char utf8_buf[4]; // Max 3 bytes for BMP + null terminator
-                    int utf8_len = hex_to_utf8(p, utf8_buf);
+                    char utf8_buf[4]; // Max 4 bytes for a surrogate pair
+                    int used = 0;
+                    int utf8_len = hex_to_utf8(p, utf8_buf, &used);
                     if (utf8_len == 0) {
                         mcp_log_error("Failed to convert Unicode escape to UTF-8.");
                         free(result);
@@ -142,7 +169,7 @@ static char* parse_string(const char** json) {
                         result[length++] = utf8_buf[i];
                     }
 
-                    p += 4; // Skip the 4 hex digits
+                    p += used; // Skip the hex digits
                     break;
                 }
                 default:
-- 
2.43.0


From 8dc9978df1b2acf262b03299f1c513084351c401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:40:15 +0000
Subject: [PATCH 39/66] fix: refuse JSON strings with an escaped null character

They cannot be represented and were silently cut short.
---
 src/json/mcp_json_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json/mcp_json_parser.c b/src/json/mcp_json_parser.c
index 9bd3cf9..cf6716e 100644
--- a/src/json/mcp_json_parser.c
+++ b/src/json/mcp_json_parser.c
@@ -158,7 +158,7 @@ static char* parse_string(const char** json) {
                     char utf8_buf[4]; // Max 4 bytes for a surrogate pair
                     int used = 0;
                     int utf8_len = hex_to_utf8(p, utf8_buf, &used);
-                    if (utf8_len == 0) {
+                    if (utf8_len == 0 || utf8_buf[0] == '\0') {
                         mcp_log_error("Failed to convert Unicode escape to UTF-8.");
                         free(result);
                         return NULL;
-- 
2.43.0


From a08bac97d7976c93f698802ea6d3921c44381e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:40:15 +0000
Subject: [PATCH 40/66] fix: refuse JSON numbers with leading zeros

---
 src/json/mcp_json_parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/json/mcp_json_parser.c b/src/json/mcp_json_parser.c
index cf6716e..8b37353 100644
--- a/src/json/mcp_json_parser.c
+++ b/src/json/mcp_json_parser.c
@@ -323,6 +323,8 @@ static mcp_json_t* parse_number(const char** json) {
         (*json)++;
     if (**json < '0' || **json > '9')
         return NULL;
+    if (**json == '0' && (*json)[1] >= '0' && (*json)[1] <= '9')
+        return NULL; // Leading zeros are not allowed
     while (**json >= '0' && **json <= '9')
         (*json)++;
     if (**json == '.') {
-- 
2.43.0


From a11fa1ef8ee88dbbb4b3743ce8356304fc250821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:40:15 +0000
Subject: [PATCH 41/66] fix: free what was parsed before an error in JSON text

Strings, arrays and tables of a rejected document are allocated outside the
arena and were never released.
---
 src/json/mcp_json_parser.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/json/mcp_json_parser.c b/src/json/mcp_json_parser.c
index 8b37353..4210249 100644
--- a/src/json/mcp_json_parser.c
+++ b/src/json/mcp_json_parser.c
@@ -231,13 +231,14 @@ static mcp_json_t* parse_object(const char** json, int depth) {
         skip_whitespace(json);
         char* name = parse_string(json);
         if (name == NULL) {
-            // Don't destroy object here, let caller handle cleanup via arena reset/destroy
+            mcp_json_destroy(object); // The node itself belongs to the arena
             return NULL;
         }
         skip_whitespace(json);
         if (**json != ':') {
             mcp_log_error("JSON parse error: Expected ':' after object key '%s'.", name);
             free(name);
+            mcp_json_destroy(object);
             return NULL;
         }
         (*json)++; // Skip ':'
@@ -246,6 +247,7 @@ static mcp_json_t* parse_object(const char** json, int depth) {
         if (value == NULL) {
             mcp_log_error("JSON parse error: Failed to parse value for object key '%s'.", name);
             free(name);
+            mcp_json_destroy(object);
             return NULL;
         }
         // Set property using generic hash table
@@ -254,7 +256,8 @@ static mcp_json_t* parse_object(const char** json, int depth) {
         if (mcp_hashtable_put(object->object_table, name, value) != 0) {
             mcp_log_error("JSON parse error: Failed to set property '%s' using mcp_hashtable_put.", name);
             free(name); // Free the parsed name string
-            // Don't destroy value (it's in arena), don't destroy object
+            mcp_json_destroy(value);
+            mcp_json_destroy(object);
             return NULL;
         }
         free(name);
@@ -265,6 +268,7 @@ static mcp_json_t* parse_object(const char** json, int depth) {
         }
         if (**json != ',') {
             mcp_log_error("JSON parse error: Expected ',' or '}' after object property.");
+            mcp_json_destroy(object);
             return NULL;
         }
         (*json)++;
@@ -295,13 +299,14 @@ static mcp_json_t* parse_array(const char** json, int depth) {
         mcp_json_t* value = parse_value(json, depth + 1);
         if (value == NULL) {
             mcp_log_error("JSON parse error: Failed to parse value in array.");
-            // Don't destroy array, let caller handle via arena
+            mcp_json_destroy(array); // The node itself belongs to the arena
             return NULL;
         }
         // Add item uses realloc for backing store, not arena
         if (mcp_json_array_add_item(array, value) != 0) {
             mcp_log_error("JSON parse error: Failed to add item to array.");
-            // Don't destroy value (it's in arena)
+            mcp_json_destroy(value);
+            mcp_json_destroy(array);
             return NULL;
         }
         skip_whitespace(json);
@@ -311,6 +316,7 @@ static mcp_json_t* parse_array(const char** json, int depth) {
         }
         if (**json != ',') {
             mcp_log_error("JSON parse error: Expected ',' or ']' after array element.");
+            mcp_json_destroy(array);
             return NULL;
         }
         (*json)++;
@@ -414,7 +420,7 @@ mcp_json_t* mcp_json_parse(const char* json) {
     if (*current != '\0') {
         mcp_log_error("JSON parse error: Trailing characters found after valid JSON: '%s'", current);
         // Trailing characters after valid JSON
-        // Don't destroy result (it's in thread-local arena), let caller handle arena.
+        mcp_json_destroy(result); // The node itself belongs to the arena
         return NULL;
     }
     return result;
-- 
2.43.0


From 378b8e3b227651eaf4fc9b51be1ffe9b533a4e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:40:15 +0000
Subject: [PATCH 42/66] fix: write numbers that are not finite as null

"inf" and "nan" are not JSON, so the whole text could not be parsed.
---
 src/json/mcp_json_stringifier.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/json/mcp_json_stringifier.c b/src/json/mcp_json_stringifier.c
index 2e1ad03..fa4c07c 100644
--- a/src/json/mcp_json_stringifier.c
+++ b/src/json/mcp_json_stringifier.c
@@ -5,6 +5,7 @@
 #include <string.h>
 #include <stdio.h>
 #include <stdbool.h>
+#include <math.h>
 
 // Stringification uses malloc/realloc for the output buffer, not arena.
 // Forward declaration for estimating JSON size
@@ -181,6 +182,9 @@ int stringify_value(const mcp_json_t* json, char** output, size_t* output_size,
         case MCP_JSON_NULL:    return append_string(output, output_size, output_capacity, "null");
         case MCP_JSON_BOOLEAN: return append_string(output, output_size, output_capacity, json->boolean_value ? "true" : "false");
         case MCP_JSON_NUMBER: {
+            if (!isfinite(json->number_value)) {
+                return append_string(output, output_size, output_capacity, "null"); // JSON has no infinity or NaN
+            }
             char buffer[32];
             // Use snprintf for robust number formatting, ensuring locale independence if possible
             // %.17g is generally good for preserving double precision
-- 
2.43.0


From 2d9cc86f801f7619c50f6f2ed1280a61ad620044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:00 +0000
Subject: [PATCH 43/66] fix: copy cached content while the cache is locked

A lookup copied the stored items after releasing the lock, so another thread
could replace, invalidate or prune the entry and free the items meanwhile.  It
also sized the result by an earlier look at the entry, which may since have
been replaced by one with more items.
---
 src/server/mcp_cache.c | 84 ++++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 45 deletions(-)

diff --git a/src/server/mcp_cache.c b/src/server/mcp_cache.c
index 6ae64a8..e6e6bad 100644
--- a/src/server/mcp_cache.c
+++ b/src/server/mcp_cache.c
@@ -366,27 +366,56 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
         return -1;
     }
 
-    // We need to make a copy of the entry's content for processing outside the lock
-    mcp_content_item_t** entry_content_copies = NULL;
     size_t actual_content_count = 0;
+    size_t copied_count = 0;
+    bool copy_error = false;
 
-    // Acquire read lock to copy entry content information
+    // Acquire read lock to copy the entry's content; the items may be released
+    // by another thread as soon as the lock is given up
     mcp_rwlock_read_lock(cache->rwlock);
 
     // Double-check that the entry is still in the cache and still valid
     if (mcp_hashtable_get(cache->table, uri, (void**)&entry) == 0 && entry != NULL) {
         // Check expiration again (0 means never expires)
         if (entry->expiry_time == 0 || now < entry->expiry_time) {
-            // Make a temporary copy of the content pointers and count
             actual_content_count = entry->content_count;
-            entry_content_copies = (mcp_content_item_t**)malloc(actual_content_count * sizeof(mcp_content_item_t*));
 
-            if (entry_content_copies) {
-                // Copy the content pointers
-                for (size_t i = 0; i < actual_content_count; ++i) {
-                    entry_content_copies[i] = entry->content[i];
+            // The entry may have been replaced by one with more items
+            if (actual_content_count > entry_content_count) {
+                mcp_content_item_t** larger = (mcp_content_item_t**)realloc(
+                    content_copy_ptrs, actual_content_count * sizeof(mcp_content_item_t*));
+                if (larger) {
+                    content_copy_ptrs = larger;
+                } else {
+                    copy_error = true;
                 }
             }
+
+            // Copy content items
+            for (size_t i = 0; !copy_error && i < actual_content_count; ++i) {
+                const mcp_content_item_t* item = entry->content[i];
+
+                // Validate content item before copying
+                if (!item) {
+                    mcp_log_error("NULL content item at index %zu in cache entry", i);
+                    copy_error = true;
+                    break;
+                }
+
+                // Acquire a pooled item and copy data into it
+                content_copy_ptrs[i] = mcp_content_item_acquire_pooled(
+                    pool,
+                    item->type,
+                    item->mime_type ? item->mime_type : "",
+                    item->data,
+                    item->data_size
+                );
+                if (!content_copy_ptrs[i]) {
+                    copy_error = true;
+                    break; // Exit loop on acquisition/copy failure
+                }
+                copied_count++;
+            }
         } else {
             // Entry expired between our checks
             is_expired = true;
@@ -400,9 +429,8 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
     mcp_rwlock_read_unlock(cache->rwlock);
 
     // If entry was removed or expired, clean up and return
-    if (!entry || is_expired || !entry_content_copies) {
+    if (!entry || is_expired) {
         free(content_copy_ptrs);
-        free(entry_content_copies);
 
         // If entry expired, remove it
         if (entry && is_expired) {
@@ -426,40 +454,6 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
         return -1;
     }
 
-    // Now process the content outside the lock
-    size_t copied_count = 0;
-    bool copy_error = false;
-
-    // Copy content items
-    for (size_t i = 0; i < actual_content_count; ++i) {
-        // Validate content item before copying
-        if (!entry_content_copies[i]) {
-            mcp_log_error("NULL content item at index %zu in cache entry", i);
-            copy_error = true;
-            break;
-        }
-
-        // Validate mime_type before passing to acquire_pooled
-        const char* mime_type = entry_content_copies[i]->mime_type ? entry_content_copies[i]->mime_type : "";
-
-        // Acquire a pooled item and copy data into it
-        content_copy_ptrs[i] = mcp_content_item_acquire_pooled(
-            pool,
-            entry_content_copies[i]->type,
-            mime_type,
-            entry_content_copies[i]->data,
-            entry_content_copies[i]->data_size
-        );
-        if (!content_copy_ptrs[i]) {
-            copy_error = true;
-            break; // Exit loop on acquisition/copy failure
-        }
-        copied_count++;
-    }
-
-    // Free the temporary copy of content pointers
-    free(entry_content_copies);
-
     if (copy_error) {
         // Release partially acquired/copied items back to pool on error
         for (size_t i = 0; i < copied_count; ++i) {
-- 
2.43.0


From 03209527e9532bad467f183e4a10141dc5626da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:00 +0000
Subject: [PATCH 44/66] fix: release the content of cache entries that expire
 or are replaced

Entries dropped by a lookup that found them expired, by eviction or by storing
new content under their key never returned their items to the pool, so a
limited pool ran dry and the data was leaked.
---
 src/server/mcp_cache.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/server/mcp_cache.c b/src/server/mcp_cache.c
index e6e6bad..a9e4505 100644
--- a/src/server/mcp_cache.c
+++ b/src/server/mcp_cache.c
@@ -290,6 +290,9 @@ static bool evict_lru_entry(mcp_resource_cache_t* cache) {
     // Remove the entry from the LRU list
     mcp_list_remove(cache->lru_list, lru_node, NULL);
 
+    // Clean up the entry's content items
+    cleanup_cache_entry_content(cache, entry);
+
     // Remove the entry from the hash table
     return mcp_hashtable_remove(cache->table, key_to_evict) == 0;
 }
@@ -349,6 +352,7 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
                 if (entry->lru_node) {
                     mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
                 }
+                cleanup_cache_entry_content(cache, entry);
                 mcp_hashtable_remove(cache->table, uri);
             }
         }
@@ -443,6 +447,7 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
                     if (entry->lru_node) {
                         mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
                     }
+                    cleanup_cache_entry_content(cache, entry);
                     mcp_hashtable_remove(cache->table, uri);
                 }
             }
@@ -488,6 +493,7 @@ int mcp_cache_get(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
             if (entry->lru_node) {
                 mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
             }
+            cleanup_cache_entry_content(cache, entry);
             mcp_hashtable_remove(cache->table, uri);
 
             // Release acquired items back to pool
@@ -617,9 +623,13 @@ int mcp_cache_put(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
     }
     // --- End LRU Eviction Logic ---
 
-    // If the key exists, we need to remove the old entry from the LRU list
-    if (key_exists && existing_entry && existing_entry->lru_node) {
-        mcp_list_remove(cache->lru_list, existing_entry->lru_node, NULL);
+    // If the key exists, we need to remove the old entry
+    if (key_exists) {
+        if (existing_entry->lru_node) {
+            mcp_list_remove(cache->lru_list, existing_entry->lru_node, NULL);
+        }
+        cleanup_cache_entry_content(cache, existing_entry);
+        mcp_hashtable_remove(cache->table, uri);
     }
 
     // Add entry to LRU list and hash table
-- 
2.43.0


From 9749bfc84f751f5883a364be0a745e47881a9d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:00 +0000
Subject: [PATCH 45/66] fix: release copied items once when storing in the
 cache fails

When copying an item failed, the items copied before it were returned to the
pool twice.
---
 src/server/mcp_cache.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/server/mcp_cache.c b/src/server/mcp_cache.c
index a9e4505..4ddc966 100644
--- a/src/server/mcp_cache.c
+++ b/src/server/mcp_cache.c
@@ -581,13 +581,8 @@ int mcp_cache_put(mcp_resource_cache_t* cache, const char* uri, mcp_object_pool_
         );
         if (!entry->content[i]) {
             copy_error = true;
-            // Release already acquired/copied items back to pool
-            for(size_t j = 0; j < i; ++j) {
-                if (entry->content[j]) {
-                    cleanup_content_item(cache, entry->content[j]);
-                }
-            }
-            // Exit loop on acquisition/copy failure
+            // Exit loop on acquisition/copy failure; the items copied so far
+            // are released with the entry
             break;
         }
         // Increment count only after successful copy
-- 
2.43.0


From 2b1ab79ddff80c6aeb67bd7efc0073305a38e023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:00 +0000
Subject: [PATCH 46/66] fix: keep entries that could not be stored out of the
 cache's LRU list

When the hash table ran out of memory the freed entry stayed in the list and
was used by the next eviction.
---
 src/server/mcp_cache.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/server/mcp_cache.c b/src/server/mcp_cache.c
index 4ddc966..9ce2cab 100644
--- a/src/server/mcp_cache.c
+++ b/src/server/mcp_cache.c
@@ -263,7 +263,13 @@ static int add_entry_to_cache(mcp_resource_cache_t* cache, const char* uri, mcp_
 
     // Add entry to hash table (this will replace any existing entry with the same key)
     // mcp_hashtable_put takes ownership of the 'entry' pointer if successful
-    return mcp_hashtable_put(cache->table, uri, entry);
+    int result = mcp_hashtable_put(cache->table, uri, entry);
+    if (result != 0) {
+        // The caller frees the entry
+        mcp_list_remove(cache->lru_list, entry->lru_node, NULL);
+        entry->lru_node = NULL;
+    }
+    return result;
 }
 
 // Helper function to evict the least recently used entry
-- 
2.43.0


From a139dab18440c9f57f60dcecc23f7b644524ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:00 +0000
Subject: [PATCH 47/66] fix: free the right arrays when pruning the cache runs
 out of memory

The arrays collected so far may have been moved, in which case the old ones
were freed again.  Nothing has been removed at that point, so report none.
---
 src/server/mcp_cache.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server/mcp_cache.c b/src/server/mcp_cache.c
index 9ce2cab..4cace6d 100644
--- a/src/server/mcp_cache.c
+++ b/src/server/mcp_cache.c
@@ -812,16 +812,17 @@ size_t mcp_cache_prune_expired(mcp_resource_cache_t* cache) {
     // Iterate through all entries to find expired ones
     mcp_hashtable_foreach(cache->table, collect_expired_keys, &callback_data);
 
+    // Update keys_to_remove pointer in case realloc changed it
+    keys_to_remove = callback_data.keys_to_remove;
+    entries_to_cleanup = callback_data.entries_to_cleanup;
+
     // If memory allocation failed during callback, clean up and return
     if (error) {
         mcp_log_error("Memory allocation failed during cache pruning");
+        removed_count = 0;
         goto cleanup;
     }
 
-    // Update keys_to_remove pointer in case realloc changed it
-    keys_to_remove = callback_data.keys_to_remove;
-    entries_to_cleanup = callback_data.entries_to_cleanup;
-
     // Clean up and remove all collected expired entries
     for (size_t i = 0; i < keys_count; i++) {
         if (keys_to_remove[i] && entries_to_cleanup[i]) {
-- 
2.43.0


From ab9e9acd527e431277031fb8c38084fd97f54fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:00 +0000
Subject: [PATCH 48/66] fix: a default cache lifetime of 0 means no expiry

As documented; entries expired the moment they were stored.
---
 src/server/mcp_cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/mcp_cache.c b/src/server/mcp_cache.c
index 4cace6d..8bbe5eb 100644
--- a/src/server/mcp_cache.c
+++ b/src/server/mcp_cache.c
@@ -218,7 +218,7 @@ static mcp_cache_entry_t* create_cache_entry(const char* uri, time_t ttl_seconds
     entry->last_accessed = time(NULL);
     time_t effective_ttl = (ttl_seconds == 0) ? cache->default_ttl_seconds : (time_t)ttl_seconds;
     // 0 means never expires
-    entry->expiry_time = (effective_ttl < 0) ? 0 : entry->last_accessed + effective_ttl;
+    entry->expiry_time = (effective_ttl <= 0) ? 0 : entry->last_accessed + effective_ttl;
     // Mark as pooled since we're using the pool
     entry->is_pooled = true;
     // Will be set after adding to LRU list
-- 
2.43.0


From 5d3151e39088319ad3848cf23ab711dae2e080c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:18 +0000
Subject: [PATCH 49/66] fix: format direct requests with ids of two digits and
 more

The buffer was sized for an id of one digit, so formatting failed for every
later request of a client.  The method is escaped as well, it went into the
text as it was.
---
 src/json/mcp_json_rpc.c | 62 +++++++++++------------------------------
 1 file changed, 17 insertions(+), 45 deletions(-)

diff --git a/src/json/mcp_json_rpc.c b/src/json/mcp_json_rpc.c
index 621d257..7e70f1e 100644
--- a/src/json/mcp_json_rpc.c
+++ b/src/json/mcp_json_rpc.c
@@ -181,65 +181,37 @@ char* mcp_json_format_request_direct(uint64_t id, const char* method, const char
         return NULL;
     }
 
-    // Calculate the required buffer size more accurately to avoid reallocations
-    size_t method_len = strlen(method);
+    // Start with room for the fixed parts, the id, the method and the params
     size_t params_len = (params != NULL) ? strlen(params) : 0;
-
-    // Base size: {"jsonrpc":"2.0","id":ID,"method":"METHOD"} + null terminator
-    // 32 bytes for the fixed parts + method length + 2 for quotes around method
-    size_t buffer_size = 32 + method_len + 2;
-
-    // Add space for params if provided: ,"params":PARAMS
-    // 11 bytes for ,"params": + params length
-    if (params != NULL) {
-        buffer_size += 11 + params_len;
-    }
-
-    // Add space for closing brace and null terminator
-    buffer_size += 2;
-
-    // Allocate the buffer with the calculated size
-    char* buffer = (char*)malloc(buffer_size);
-    if (!buffer) {
+    dyn_buf_t db;
+    if (dyn_buf_init(&db, 64 + strlen(method) + params_len) != 0) {
         return NULL;
     }
 
-    // Format the basic request structure
-    int written = snprintf(buffer, buffer_size,
-        "{\"jsonrpc\":\"2.0\",\"id\":%" PRIu64 ",\"method\":\"%s\"",
-        id, method);
+    char id_buf[24];
+    snprintf(id_buf, sizeof(id_buf), "%" PRIu64, id);
 
-    if (written < 0 || (size_t)written >= buffer_size) {
-        // Buffer too small or error
-        free(buffer);
-        return NULL;
-    }
+    // Format the basic request structure
+    int failed = dyn_buf_append(&db, "{\"jsonrpc\":\"2.0\",\"id\":");
+    failed |= dyn_buf_append(&db, id_buf);
+    failed |= dyn_buf_append(&db, ",\"method\":");
+    failed |= dyn_buf_append_json_string(&db, method);
 
     // Add params if provided
     if (params != NULL) {
-        // Append the params
-        written += snprintf(buffer + written, buffer_size - written,
-            ",\"params\":%s", params);
-
-        if (written < 0 || (size_t)written >= buffer_size) {
-            // Buffer calculation error or snprintf error
-            free(buffer);
-            return NULL;
-        }
+        failed |= dyn_buf_append(&db, ",\"params\":");
+        failed |= dyn_buf_append(&db, params);
     }
 
     // Add closing brace
-    if ((size_t)written + 2 <= buffer_size) {
-        buffer[written] = '}';
-        buffer[written + 1] = '\0';
-    }
-    else {
-        // This should never happen with our buffer size calculation
-        free(buffer);
+    failed |= dyn_buf_append(&db, "}");
+
+    if (failed) {
+        dyn_buf_free(&db);
         return NULL;
     }
 
-    return buffer;
+    return dyn_buf_finalize(&db);
 }
 
 char* mcp_json_format_error_response(uint64_t id, mcp_error_code_t error_code, const char* error_message) {
-- 
2.43.0


From 5f7ee4a39f02f2765e7db0d1d49be5646f0db5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:18 +0000
Subject: [PATCH 50/66] fix: refuse JSON-RPC ids and error codes that are not
 whole numbers in range

Negative, fractional and huge ids were converted to some other id, and codes
likewise.
---
 src/json/mcp_json_message.c | 54 +++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/json/mcp_json_message.c b/src/json/mcp_json_message.c
index 6419db5..3f33be5 100644
--- a/src/json/mcp_json_message.c
+++ b/src/json/mcp_json_message.c
@@ -4,12 +4,32 @@
 #include <stdio.h>
 #include "mcp_string_utils.h"
 #include <inttypes.h>
+#include <limits.h>
 
 // --- MCP Message Parsing/Stringification ---
 // These functions now use the thread-local arena implicitly for parsing/creating
 // the main JSON structure, but still use malloc/mcp_strdup for strings within
 // the mcp_message_t struct and for the stringified result/params.
 
+// Get a message id from a JSON node: a non-negative whole number
+static bool get_message_id(const mcp_json_t* node, uint64_t* id) {
+    if (node->type != MCP_JSON_NUMBER || !(node->number_value >= 0 && node->number_value < 18446744073709551616.0)) {
+        return false;
+    }
+    *id = (uint64_t)node->number_value;
+    return (double)*id == node->number_value;
+}
+
+// Get an error code from a JSON node: a whole number in the range of int
+static bool get_error_code(const mcp_json_t* node, mcp_error_code_t* code) {
+    if (node->type != MCP_JSON_NUMBER || !(node->number_value >= INT_MIN && node->number_value <= INT_MAX)) {
+        return false;
+    }
+    int value = (int)node->number_value;
+    *code = (mcp_error_code_t)value;
+    return (double)value == node->number_value;
+}
+
 int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
     if (json_str == NULL || message == NULL) {
         return -1;
@@ -42,11 +62,12 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
     if (method != NULL && method->type == MCP_JSON_STRING) {
         if (id != NULL) { // Must have ID for request
             // Check ID type (integer or string allowed by spec, but we use uint64_t)
-            if (id->type == MCP_JSON_NUMBER) { // || id->type == MCP_JSON_STRING) { // Allow string ID? No, use number for now.
+            uint64_t id_value;
+            if (get_message_id(id, &id_value)) { // Allow string ID? No, use number for now.
                 // Check params type (object or array allowed, or omitted)
                 if (params == NULL || params->type == MCP_JSON_OBJECT || params->type == MCP_JSON_ARRAY) {
                     message->type = MCP_MESSAGE_TYPE_REQUEST;
-                    message->request.id = (uint64_t)id->number_value; // TODO: Handle potential precision loss or non-integer?
+                    message->request.id = id_value;
                     message->request.method = mcp_strdup(method->string_value); // Use helper
                     message->request.params = (params != NULL) ? mcp_json_stringify(params) : NULL; // Stringify uses malloc
 
@@ -83,9 +104,10 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
     // --- Response Check ---
     } else if (id != NULL && (result != NULL || error != NULL)) { // Response
         // Check ID type
-        if (id->type == MCP_JSON_NUMBER) { // || id->type == MCP_JSON_STRING) { // Allow string ID? No.
+        uint64_t id_value;
+        if (get_message_id(id, &id_value)) { // Allow string ID? No.
             message->type = MCP_MESSAGE_TYPE_RESPONSE;
-            message->response.id = (uint64_t)id->number_value; // TODO: Handle potential precision loss?
+            message->response.id = id_value;
 
             if (error != NULL && error->type == MCP_JSON_OBJECT) { // Error Response
                 if (result != NULL) {
@@ -95,10 +117,11 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
                     mcp_json_t* code = mcp_json_object_get_property(error, "code");
                     mcp_json_t* msg = mcp_json_object_get_property(error, "message");
                     // Code MUST be an integer
-                    if (code != NULL && code->type == MCP_JSON_NUMBER) { // TODO: Check if integer?
+                    mcp_error_code_t code_value;
+                    if (code != NULL && get_error_code(code, &code_value)) {
                         // Message MUST be a string
                         if (msg != NULL && msg->type == MCP_JSON_STRING) {
-                            message->response.error_code = (mcp_error_code_t)(int)code->number_value;
+                            message->response.error_code = code_value;
                             message->response.error_message = mcp_strdup(msg->string_value); // Use helper
                             message->response.result = NULL;
                             if (message->response.error_message != NULL) {
@@ -113,7 +136,7 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
                             message->type = MCP_MESSAGE_TYPE_INVALID;
                         }
                     } else { // Invalid error code type
-                        mcp_log_error("MCP message parse error: Response 'error.code' is not a number.");
+                        mcp_log_error("MCP message parse error: Response 'error.code' is not an integer.");
                         message->type = MCP_MESSAGE_TYPE_INVALID;
                     }
                 }
@@ -136,7 +159,7 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
                 message->type = MCP_MESSAGE_TYPE_INVALID;
             }
         } else { // Invalid ID type
-            mcp_log_error("MCP message parse error: Response 'id' is not a number.");
+            mcp_log_error("MCP message parse error: Response 'id' is not a valid number.");
             message->type = MCP_MESSAGE_TYPE_INVALID;
         }
      // --- Invalid Message Type ---
@@ -416,10 +439,11 @@ static int parse_single_message_from_json(mcp_json_t* json, mcp_message_t* messa
     // --- Request Check ---
     if (method != NULL && method->type == MCP_JSON_STRING) {
         if (id != NULL) { // Request
-            if (id->type == MCP_JSON_NUMBER) {
+            uint64_t id_value;
+            if (get_message_id(id, &id_value)) {
                 if (params == NULL || params->type == MCP_JSON_OBJECT || params->type == MCP_JSON_ARRAY) {
                     message->type = MCP_MESSAGE_TYPE_REQUEST;
-                    message->request.id = (uint64_t)id->number_value;
+                    message->request.id = id_value;
                     message->request.method = mcp_strdup(method->string_value);
                     message->request.params = (params != NULL) ? mcp_json_stringify(params) : NULL; // Still uses malloc
                     if (message->request.method != NULL && (params == NULL || message->request.params != NULL)) {
@@ -445,17 +469,19 @@ static int parse_single_message_from_json(mcp_json_t* json, mcp_message_t* messa
         }
     // --- Response Check ---
     } else if (id != NULL && (result != NULL || error != NULL)) { // Response
-        if (id->type == MCP_JSON_NUMBER) {
+        uint64_t id_value;
+        if (get_message_id(id, &id_value)) {
             message->type = MCP_MESSAGE_TYPE_RESPONSE;
-            message->response.id = (uint64_t)id->number_value;
+            message->response.id = id_value;
             if (error != NULL && error->type == MCP_JSON_OBJECT) { // Error Response
                 if (result != NULL)
                     message->type = MCP_MESSAGE_TYPE_INVALID;
                 else {
                     mcp_json_t* code = mcp_json_object_get_property(error, "code");
                     mcp_json_t* msg = mcp_json_object_get_property(error, "message");
-                    if (code != NULL && code->type == MCP_JSON_NUMBER && msg != NULL && msg->type == MCP_JSON_STRING) {
-                        message->response.error_code = (mcp_error_code_t)(int)code->number_value;
+                    mcp_error_code_t code_value;
+                    if (code != NULL && get_error_code(code, &code_value) && msg != NULL && msg->type == MCP_JSON_STRING) {
+                        message->response.error_code = code_value;
                         message->response.error_message = mcp_strdup(msg->string_value);
                         message->response.result = NULL;
                         if (message->response.error_message != NULL) {
-- 
2.43.0


From 023fd5cf369e1b3cf7a6be91029049860303799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:18 +0000
Subject: [PATCH 51/66] fix: report every element of a batch

The count left out elements that are no valid message although they keep their
place in the array, so valid messages at its end were never handled and leaked.
---
 src/json/mcp_json_message.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/json/mcp_json_message.c b/src/json/mcp_json_message.c
index 3f33be5..1aa511c 100644
--- a/src/json/mcp_json_message.c
+++ b/src/json/mcp_json_message.c
@@ -601,7 +601,7 @@ int mcp_json_parse_message_or_batch(const char* json_str, mcp_message_t** messag
                     (*messages)[i].type = MCP_MESSAGE_TYPE_INVALID;
                 }
 
-                *count = 0; // Track successfully parsed messages
+                *count = batch_size; // Elements that are no valid message keep the invalid type
 
                 // Process batch items in parallel chunks for better performance on large batches
                 const size_t CHUNK_SIZE = 16; // Process this many items at once
@@ -616,9 +616,7 @@ int mcp_json_parse_message_or_batch(const char* json_str, mcp_message_t** messag
 
                         if (item_json != NULL && item_json->type == MCP_JSON_OBJECT) {
                             // Parse the individual message object
-                            if (parse_single_message_from_json(item_json, &(*messages)[i]) == 0) {
-                                (*count)++; // Increment count only if parsing succeeded
-                            } else {
+                            if (parse_single_message_from_json(item_json, &(*messages)[i]) != 0) {
                                 // Parsing failed, ensure contents are released
                                 mcp_message_release_contents(&(*messages)[i]);
                                 (*messages)[i].type = MCP_MESSAGE_TYPE_INVALID;
-- 
2.43.0


From b07db10caa66bfcf702407b91e1719d25b8484c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:18 +0000
Subject: [PATCH 52/66] fix: free the JSON trees of parsed and formatted
 messages

Only the nodes live in the arena; the strings and tables they refer to were
leaked with every message.
---
 src/json/mcp_json_message.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/json/mcp_json_message.c b/src/json/mcp_json_message.c
index 1aa511c..bd5bccb 100644
--- a/src/json/mcp_json_message.c
+++ b/src/json/mcp_json_message.c
@@ -46,6 +46,7 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
         // Parsed something, but not an object. Arena contains the invalid node.
         mcp_log_error("MCP message parse error: Root element is not a JSON object.");
         // Let caller handle arena cleanup.
+        mcp_json_destroy(json);
         return -1;
     }
 
@@ -168,6 +169,9 @@ int mcp_json_parse_message(const char* json_str, mcp_message_t* message) {
         message->type = MCP_MESSAGE_TYPE_INVALID;
     }
 
+    // The strings and tables of the parsed tree are not in the arena
+    mcp_json_destroy(json);
+
     // Parsed JSON tree ('json') lives in the thread-local arena.
     // The caller is responsible for calling mcp_arena_reset_current_thread()
     // or mcp_arena_destroy_current_thread() eventually.
@@ -364,6 +368,7 @@ char* mcp_json_create_request(const char* method, const char* params, uint64_t i
             mcp_json_object_set_property(request, "params", params_node);
         }
         final_json_string = mcp_json_stringify(request); // Uses malloc
+        mcp_json_destroy(request);
     } else {
         mcp_log_error("Failed to create nodes for JSON-RPC request.");
         // Nodes are in arena, no need to destroy individually here.
@@ -408,6 +413,7 @@ char* mcp_json_create_response(uint64_t id, const char* result) {
         mcp_json_object_set_property(response, "id", id_node);
         mcp_json_object_set_property(response, "result", result_node);
         final_json_string = mcp_json_stringify(response); // Uses malloc
+        mcp_json_destroy(response);
     } else {
         mcp_log_error("Failed to create nodes for JSON-RPC response.");
         mcp_json_destroy(response); // Clean up arena nodes if creation failed
@@ -636,6 +642,9 @@ int mcp_json_parse_message_or_batch(const char* json_str, mcp_message_t** messag
         result = MCP_ERROR_INVALID_REQUEST;
     }
 
+    // The strings and tables of the parsed tree are not in the arena
+    mcp_json_destroy(root_json);
+
     // Arena cleanup is handled by the caller
     PROFILE_END("mcp_json_parse_batch");
     return result;
@@ -678,6 +687,7 @@ char* mcp_json_create_error_response(uint64_t id, int error_code, const char* er
         mcp_json_object_set_property(response, "id", id_node);
         mcp_json_object_set_property(response, "error", error_obj);
         final_json_string = mcp_json_stringify(response); // Uses malloc
+        mcp_json_destroy(response);
     } else {
         mcp_log_error("Failed to create nodes for JSON-RPC error response.");
         mcp_json_destroy(response); // Clean up arena nodes if creation failed
-- 
2.43.0


From 0d1110932f01a4ae192539310a68f3645d449032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:18 +0000
Subject: [PATCH 53/66] fix: do not return messages cut short by a lack of
 memory

---
 src/json/mcp_json_message.c | 53 +++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/json/mcp_json_message.c b/src/json/mcp_json_message.c
index bd5bccb..aa2d11f 100644
--- a/src/json/mcp_json_message.c
+++ b/src/json/mcp_json_message.c
@@ -253,7 +253,7 @@ char* mcp_json_stringify_message(const mcp_message_t* message) {
     }
 
     // Common parts
-    dyn_buf_append(&db, "{\"jsonrpc\":\"2.0\","); // Assume success for core parts
+    int failed = dyn_buf_append(&db, "{\"jsonrpc\":\"2.0\",");
 
     char id_buf[32]; // Buffer for integer ID stringification
 
@@ -261,53 +261,53 @@ char* mcp_json_stringify_message(const mcp_message_t* message) {
         case MCP_MESSAGE_TYPE_REQUEST:
             // Append ID
             snprintf(id_buf, sizeof(id_buf), "%" PRIu64, message->request.id);
-            dyn_buf_append(&db, "\"id\":");
-            dyn_buf_append(&db, id_buf);
-            dyn_buf_append(&db, ",");
+            failed |= dyn_buf_append(&db, "\"id\":");
+            failed |= dyn_buf_append(&db, id_buf);
+            failed |= dyn_buf_append(&db, ",");
 
             // Append Method
-            dyn_buf_append(&db, "\"method\":");
-            dyn_buf_append_json_string(&db, message->request.method ? message->request.method : "");
+            failed |= dyn_buf_append(&db, "\"method\":");
+            failed |= dyn_buf_append_json_string(&db, message->request.method ? message->request.method : "");
 
             // Append Params (if they exist - assume params is already a valid JSON string or NULL)
             if (message->request.params != NULL) {
-                dyn_buf_append(&db, ",\"params\":");
-                dyn_buf_append(&db, (const char*)message->request.params); // Append raw JSON string
+                failed |= dyn_buf_append(&db, ",\"params\":");
+                failed |= dyn_buf_append(&db, (const char*)message->request.params); // Append raw JSON string
             }
             break;
 
         case MCP_MESSAGE_TYPE_RESPONSE:
             // Append ID
             snprintf(id_buf, sizeof(id_buf), "%" PRIu64, message->response.id);
-            dyn_buf_append(&db, "\"id\":");
-            dyn_buf_append(&db, id_buf);
+            failed |= dyn_buf_append(&db, "\"id\":");
+            failed |= dyn_buf_append(&db, id_buf);
 
             if (message->response.error_code != MCP_ERROR_NONE) { // Error response
-                dyn_buf_append(&db, ",\"error\":{\"code\":");
+                failed |= dyn_buf_append(&db, ",\"error\":{\"code\":");
                 snprintf(id_buf, sizeof(id_buf), "%d", message->response.error_code); // Use %d for error code
-                dyn_buf_append(&db, id_buf);
-                dyn_buf_append(&db, ",\"message\":");
-                dyn_buf_append_json_string(&db, message->response.error_message ? message->response.error_message : "");
-                dyn_buf_append(&db, "}"); // Close error object
+                failed |= dyn_buf_append(&db, id_buf);
+                failed |= dyn_buf_append(&db, ",\"message\":");
+                failed |= dyn_buf_append_json_string(&db, message->response.error_message ? message->response.error_message : "");
+                failed |= dyn_buf_append(&db, "}"); // Close error object
             } else { // Success response
-                dyn_buf_append(&db, ",\"result\":");
+                failed |= dyn_buf_append(&db, ",\"result\":");
                 if (message->response.result != NULL) {
-                    dyn_buf_append(&db, (const char*)message->response.result); // Append raw JSON string
+                    failed |= dyn_buf_append(&db, (const char*)message->response.result); // Append raw JSON string
                 } else {
-                    dyn_buf_append(&db, "null");
+                    failed |= dyn_buf_append(&db, "null");
                 }
             }
             break;
 
         case MCP_MESSAGE_TYPE_NOTIFICATION:
             // Append Method
-            dyn_buf_append(&db, "\"method\":");
-            dyn_buf_append_json_string(&db, message->notification.method ? message->notification.method : "");
+            failed |= dyn_buf_append(&db, "\"method\":");
+            failed |= dyn_buf_append_json_string(&db, message->notification.method ? message->notification.method : "");
 
             // Append Params (if they exist - assume params is already a valid JSON string or NULL)
             if (message->notification.params != NULL) {
-                dyn_buf_append(&db, ",\"params\":");
-                dyn_buf_append(&db, (const char*)message->notification.params); // Append raw JSON string
+                failed |= dyn_buf_append(&db, ",\"params\":");
+                failed |= dyn_buf_append(&db, (const char*)message->notification.params); // Append raw JSON string
             }
             break;
 
@@ -318,7 +318,14 @@ char* mcp_json_stringify_message(const mcp_message_t* message) {
             return NULL; // Indicate error
     }
 
-    dyn_buf_append(&db, "}"); // Close root object
+    failed |= dyn_buf_append(&db, "}"); // Close root object
+
+    if (failed) {
+        mcp_log_error("Failed to grow the buffer for stringify.");
+        dyn_buf_free(&db);
+        PROFILE_END("mcp_json_stringify_message");
+        return NULL;
+    }
 
     // Finalize buffer (transfers ownership of buffer to final_json_string)
     char* final_json_string = dyn_buf_finalize(&db);
-- 
2.43.0


From afe34d630dd598713402962818cf1325b1a22ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:49:58 +0000
Subject: [PATCH 54/66] fix: count every message out and never start one after
 shutdown

Messages that were too large or could not be copied stayed counted as active,
the last message of a stopping server did not wake the shutdown, and a message
that had passed the shutdown check could start after the drain had finished.
---
 src/server/mcp_server_task.c | 74 ++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 36 deletions(-)

diff --git a/src/server/mcp_server_task.c b/src/server/mcp_server_task.c
index bfe1fd7..6b13fb9 100644
--- a/src/server/mcp_server_task.c
+++ b/src/server/mcp_server_task.c
@@ -123,6 +123,28 @@ void process_message_task(void* arg) {
     PROFILE_END("process_message_task");
 }
 
+/**
+ * @brief Counts a message out and wakes a shutdown waiting for the last one
+ *
+ * @param server The server that counted the message in
+ */
+static void finish_active_request(mcp_server_t* server) {
+#ifdef _WIN32
+    bool last = InterlockedDecrement((LONG*)&server->active_requests) == 0;
+#else
+    bool last = __sync_fetch_and_sub(&server->active_requests, 1) == 1;
+#endif
+
+    // If active_requests reached zero and server is shutting down, signal the condition variable
+    if (last && server->shutting_down) {
+        if (mcp_mutex_lock(server->shutdown_mutex) == 0) {
+            mcp_cond_signal(server->shutdown_cond);
+            mcp_mutex_unlock(server->shutdown_mutex);
+            mcp_log_info("Last request completed, signaling shutdown condition");
+        }
+    }
+}
+
 /**
  * @brief Callback for processing incoming transport messages
  * 
@@ -148,20 +170,23 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     mcp_server_t* server = (mcp_server_t*)user_data;
     *error_code = MCP_ERROR_NONE;
 
+    // Increment active request counter before looking at the flag, so that a shutdown
+    // either is seen here or waits for this message
+#ifdef _WIN32
+    InterlockedIncrement((LONG*)&server->active_requests);
+#else
+    __sync_fetch_and_add(&server->active_requests, 1);
+#endif
+
     // Check if server is shutting down
     if (server->shutting_down) {
         mcp_log_warn("Server is shutting down, rejecting new request");
         *error_code = MCP_ERROR_SERVER_SHUTTING_DOWN;
+        finish_active_request(server);
+        PROFILE_END("transport_message_callback");
         return NULL;
     }
 
-    // Increment active request counter
-#ifdef _WIN32
-    InterlockedIncrement((LONG*)&server->active_requests);
-#else
-    __sync_fetch_and_add(&server->active_requests, 1);
-#endif
-
     // --- Rate Limiting Check ---
     // Get client IP address from transport (or use default if not available)
     const char* client_ip = mcp_transport_get_client_ip(server->transport);
@@ -180,13 +205,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
                 mcp_log_warn("Advanced rate limit exceeded for client IP: %s", client_ip ? client_ip : "unknown");
                 *error_code = MCP_ERROR_TOO_MANY_REQUESTS;
 
-                // Decrement active request counter since we're rejecting this request
-                #ifdef _WIN32
-                InterlockedDecrement((LONG*)&server->active_requests);
-                #else
-                __sync_fetch_and_sub(&server->active_requests, 1);
-                #endif
-
+                finish_active_request(server);
                 PROFILE_END("transport_message_callback");
                 return NULL;
             }
@@ -197,13 +216,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
                 mcp_log_warn("Rate limit exceeded for client IP: %s", client_ip ? client_ip : "unknown");
                 *error_code = MCP_ERROR_TOO_MANY_REQUESTS;
 
-                // Decrement active request counter since we're rejecting this request
-                #ifdef _WIN32
-                InterlockedDecrement((LONG*)&server->active_requests);
-                #else
-                __sync_fetch_and_sub(&server->active_requests, 1);
-                #endif
-
+                finish_active_request(server);
                 PROFILE_END("transport_message_callback");
                 return NULL;
             }
@@ -217,6 +230,8 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     if (size > max_size) {
         mcp_log_error("Received message size (%zu) exceeds limit (%zu)", size, max_size);
         *error_code = MCP_ERROR_INVALID_REQUEST;
+        finish_active_request(server);
+        PROFILE_END("transport_message_callback");
         return NULL;
     }
 
@@ -244,6 +259,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
     if (!message_copy) {
         mcp_log_error("Failed to allocate memory for message copy");
         *error_code = MCP_ERROR_INTERNAL_ERROR;
+        finish_active_request(server);
         PROFILE_END("transport_message_callback");
         return NULL;
     }
@@ -283,21 +299,7 @@ char* transport_message_callback(void* user_data, const void* data, size_t size,
         mcp_log_error("Failed to process message (error code: %d), no response generated", handler_error_code);
     }
 
-    // Decrement active request counter
-#ifdef _WIN32
-    LONG prev_count = InterlockedDecrement((LONG*)&server->active_requests);
-#else
-    int prev_count = __sync_fetch_and_sub(&server->active_requests, 1);
-#endif
-
-    // If active_requests reached zero and server is shutting down, signal the condition variable
-    if (prev_count == 0 && server->shutting_down) {
-        if (mcp_mutex_lock(server->shutdown_mutex) == 0) {
-            mcp_cond_signal(server->shutdown_cond);
-            mcp_mutex_unlock(server->shutdown_mutex);
-            mcp_log_info("Last request completed, signaling shutdown condition");
-        }
-    }
+    finish_active_request(server);
 
     PROFILE_END("transport_message_callback");
     return result; // Return the response or NULL
-- 
2.43.0


From fb2c924b4fb84bb0ff4e5918f7de3906393b855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:49:58 +0000
Subject: [PATCH 55/66] fix: wait for all active requests when shutting down
 gracefully

The wait ended at the first wakeup, whether or not requests were still active,
and a request that finished just before it was waited for in vain.
---
 src/server/mcp_server.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/server/mcp_server.c b/src/server/mcp_server.c
index 150c64f..109546f 100644
--- a/src/server/mcp_server.c
+++ b/src/server/mcp_server.c
@@ -3,6 +3,7 @@
 #include <mcp_types.h>
 #include <mcp_template_optimized.h>
 #include <mcp_log.h>
+#include <mcp_sys_utils.h>
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -579,6 +580,9 @@ int mcp_server_stop(mcp_server_t* server) {
     // Signal threads to stop
     server->running = false;
     server->shutting_down = true;
+#ifndef _WIN32
+    __sync_synchronize();
+#endif
 
     // Stop the transport if it exists
     if (server->transport != NULL) {
@@ -617,11 +621,14 @@ int mcp_server_stop(mcp_server_t* server) {
                     }
                 }
                 #else
-                // On POSIX, we can use a single timed wait with the full timeout
-                int wait_result = mcp_cond_timedwait(server->shutdown_cond, server->shutdown_mutex, timeout_ms);
-                if (wait_result == -2) {
-                    // -2 indicates timeout
-                    timed_out = true;
+                // Wait for what is left of the timeout until no request is active
+                long long end_time = mcp_get_time_ms() + timeout_ms;
+                while (server->active_requests > 0 && !timed_out) {
+                    long long left = end_time - mcp_get_time_ms();
+                    if (left <= 0 || mcp_cond_timedwait(server->shutdown_cond, server->shutdown_mutex, (uint32_t)left) == -2) {
+                        // -2 indicates timeout
+                        timed_out = server->active_requests > 0;
+                    }
                 }
                 #endif
 
-- 
2.43.0


From c7d06a9d13677bd5a8f622e849daa99533905ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:52:29 +0000
Subject: [PATCH 56/66] fix: take the write lock for advanced rate limit checks

A check adds and changes client entries, which two readers at once corrupted
or created twice, doubling the allowance.
---
 src/server/mcp_advanced_rate_limiter.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/server/mcp_advanced_rate_limiter.c b/src/server/mcp_advanced_rate_limiter.c
index 1d5de61..37a7852 100644
--- a/src/server/mcp_advanced_rate_limiter.c
+++ b/src/server/mcp_advanced_rate_limiter.c
@@ -836,15 +836,15 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
         return false;
     }
 
-    // Increment total requests counter
-    limiter->total_requests++;
-
     // Get current time
     time_t current_time = time(NULL);
     bool allowed = false;
 
-    // Acquire read lock
-    mcp_rwlock_read_lock(limiter->lock);
+    // Acquire write lock: a check changes the client's data
+    mcp_rwlock_write_lock(limiter->lock);
+
+    // Increment total requests counter
+    limiter->total_requests++;
 
     // Check each key type in order of priority
     if (api_key) {
@@ -871,8 +871,8 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
 
                 // If allowed, we're done
                 if (allowed) {
-                    mcp_rwlock_read_unlock(limiter->lock);
                     limiter->allowed_requests++;
+                    mcp_rwlock_write_unlock(limiter->lock);
                     return true;
                 }
             }
@@ -903,8 +903,8 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
 
                 // If allowed, we're done
                 if (allowed) {
-                    mcp_rwlock_read_unlock(limiter->lock);
                     limiter->allowed_requests++;
+                    mcp_rwlock_write_unlock(limiter->lock);
                     return true;
                 }
             }
@@ -935,8 +935,8 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
 
                 // If allowed, we're done
                 if (allowed) {
-                    mcp_rwlock_read_unlock(limiter->lock);
                     limiter->allowed_requests++;
+                    mcp_rwlock_write_unlock(limiter->lock);
                     return true;
                 }
             }
@@ -967,19 +967,19 @@ bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t* limiter,
 
                 // If allowed, we're done
                 if (allowed) {
-                    mcp_rwlock_read_unlock(limiter->lock);
                     limiter->allowed_requests++;
+                    mcp_rwlock_write_unlock(limiter->lock);
                     return true;
                 }
             }
         }
     }
 
-    // Release lock
-    mcp_rwlock_read_unlock(limiter->lock);
-
     // If we get here, the request is denied
     limiter->denied_requests++;
+
+    // Release lock
+    mcp_rwlock_write_unlock(limiter->lock);
     return false;
 }
 
-- 
2.43.0


From 14518bbfc1533ff24d3650bf760551a814886d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:52:29 +0000
Subject: [PATCH 57/66] fix: match rate limit patterns with a star at both ends

They were taken for prefixes and never matched.
---
 src/server/mcp_advanced_rate_limiter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/mcp_advanced_rate_limiter.c b/src/server/mcp_advanced_rate_limiter.c
index 37a7852..91c4caa 100644
--- a/src/server/mcp_advanced_rate_limiter.c
+++ b/src/server/mcp_advanced_rate_limiter.c
@@ -290,13 +290,13 @@ static bool key_matches_pattern(const char* key, const char* pattern) {
     size_t key_len = strlen(key);
 
     // Check for prefix match: pattern ends with *
-    if (pattern_len > 1 && pattern[pattern_len - 1] == '*') {
+    if (pattern_len > 1 && pattern[0] != '*' && pattern[pattern_len - 1] == '*') {
         // Compare all characters except the trailing *
         return strncmp(key, pattern, pattern_len - 1) == 0;
     }
 
     // Check for suffix match: pattern starts with *
-    if (pattern_len > 1 && pattern[0] == '*') {
+    if (pattern_len > 1 && pattern[0] == '*' && pattern[pattern_len - 1] != '*') {
         // Compare the suffix
         size_t suffix_len = pattern_len - 1;
         if (key_len >= suffix_len) {
-- 
2.43.0


From e0f55baf76171ca112ed655c979e8a526555d649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:52:29 +0000
Subject: [PATCH 58/66] fix: apply rate limit rules with a negative priority

---
 src/server/mcp_advanced_rate_limiter.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/server/mcp_advanced_rate_limiter.c b/src/server/mcp_advanced_rate_limiter.c
index 91c4caa..390bb3e 100644
--- a/src/server/mcp_advanced_rate_limiter.c
+++ b/src/server/mcp_advanced_rate_limiter.c
@@ -336,16 +336,14 @@ static const mcp_rate_limit_rule_t* find_matching_rule(mcp_advanced_rate_limiter
     // Get the rule list for this key type
     rule_entry_t* rule = limiter->rules[key_type];
     const mcp_rate_limit_rule_t* best_match = NULL;
-    int highest_priority = -1;
 
     // Iterate through rules to find the best match
     while (rule) {
         // Check if the key matches the rule's pattern
         if (rule->rule.key_pattern == NULL || key_matches_pattern(key, rule->rule.key_pattern)) {
             // If this rule has higher priority than our current best match, use it
-            if (rule->rule.priority > highest_priority) {
+            if (best_match == NULL || rule->rule.priority > best_match->priority) {
                 best_match = &rule->rule;
-                highest_priority = rule->rule.priority;
             }
         }
         rule = rule->next;
-- 
2.43.0


From b4e9094714b7114fa4ef7b0a23eeb31e62339ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:52:29 +0000
Subject: [PATCH 59/66] fix: apply changed rate limit rules to clients already
 known

A client known under another algorithm had its data taken for that of the new
one, a raised sliding window maximum lifted the limit altogether, and new
rates and capacities were ignored.
---
 src/server/mcp_advanced_rate_limiter.c | 67 ++++++++++++++++++++++++--
 1 file changed, 64 insertions(+), 3 deletions(-)

diff --git a/src/server/mcp_advanced_rate_limiter.c b/src/server/mcp_advanced_rate_limiter.c
index 390bb3e..4aa0dc9 100644
--- a/src/server/mcp_advanced_rate_limiter.c
+++ b/src/server/mcp_advanced_rate_limiter.c
@@ -246,6 +246,7 @@ static bool initialize_algorithm_data(client_entry_t* entry, const mcp_rate_limi
             entry->data.sliding_window.request_times =
                 (double*)calloc(rule->max_requests_per_window, sizeof(double));
             if (!entry->data.sliding_window.request_times) {
+                entry->data.sliding_window.buffer_size = 0;
                 return false;
             }
             break;
@@ -393,6 +394,62 @@ static bool resize_client_table(mcp_advanced_rate_limiter_t* limiter, size_t new
     return true;
 }
 
+/**
+ * @internal
+ * @brief Makes the data of an existing client fit the rule that applies now.
+ */
+static bool adapt_client_entry(client_entry_t* entry, const mcp_rate_limit_rule_t* rule) {
+    if (entry->algorithm != rule->algorithm) {
+        // Another algorithm starts afresh
+        cleanup_algorithm_data(entry);
+        memset(&entry->data, 0, sizeof(entry->data));
+        return initialize_algorithm_data(entry, rule);
+    }
+
+    switch (rule->algorithm) {
+        case MCP_RATE_LIMIT_SLIDING_WINDOW: {
+            sliding_window_data_t* data = &entry->data.sliding_window;
+            size_t size = rule->max_requests_per_window;
+            if (data->request_times != NULL && data->buffer_size == size)
+                break;
+
+            double* times = (double*)calloc(size, sizeof(double));
+            if (!times)
+                return false;
+
+            // Keep the latest requests, oldest first
+            size_t kept = 0;
+            for (size_t i = 0; i < data->buffer_size && kept < size; i++) {
+                size_t age = data->buffer_size - 1 - i;
+                double t = data->request_times[(data->buffer_pos + age) % data->buffer_size];
+                if (t > 0)
+                    times[size - 1 - kept++] = t;
+            }
+            free(data->request_times);
+            data->request_times = times;
+            data->buffer_size = size;
+            data->buffer_pos = 0;
+            break;
+        }
+
+        case MCP_RATE_LIMIT_TOKEN_BUCKET:
+            entry->data.token_bucket.tokens_per_second = rule->tokens_per_second;
+            entry->data.token_bucket.max_tokens = rule->max_tokens;
+            entry->data.token_bucket.tokens = fmin(entry->data.token_bucket.tokens, (double)rule->max_tokens);
+            break;
+
+        case MCP_RATE_LIMIT_LEAKY_BUCKET:
+            entry->data.leaky_bucket.leak_rate_per_second = rule->leak_rate_per_second;
+            entry->data.leaky_bucket.burst_capacity = rule->burst_capacity;
+            break;
+
+        case MCP_RATE_LIMIT_FIXED_WINDOW:
+            break;
+    }
+
+    return true;
+}
+
 /**
  * @internal
  * @brief Finds or creates a client entry.
@@ -412,18 +469,22 @@ static client_entry_t* find_or_create_client_entry(mcp_advanced_rate_limiter_t*
     if (created)
         *created = false;
 
+    // Find the matching rule for this key
+    const mcp_rate_limit_rule_t* rule = find_matching_rule(limiter, key_type, key);
+
     // Look for existing entry
     client_entry_t* entry = limiter->client_buckets[index];
     while (entry) {
         if (entry->key_type == key_type && strcmp(entry->key, key) == 0) {
-            // Found existing entry
+            // Found existing entry; the rule may not be the one it was made for
+            if (rule && !adapt_client_entry(entry, rule)) {
+                return NULL;
+            }
             return entry;
         }
         entry = entry->next;
     }
 
-    // Find the matching rule for this key
-    const mcp_rate_limit_rule_t* rule = find_matching_rule(limiter, key_type, key);
     if (!rule) {
         // No matching rule, can't create entry
         return NULL;
-- 
2.43.0


From ee411ad2f18cc18d4f48f286747a76b1527a2997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:53:29 +0000
Subject: [PATCH 60/66] fix: free the lock of the advanced rate limiter

---
 src/server/mcp_advanced_rate_limiter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/mcp_advanced_rate_limiter.c b/src/server/mcp_advanced_rate_limiter.c
index 4aa0dc9..05848e8 100644
--- a/src/server/mcp_advanced_rate_limiter.c
+++ b/src/server/mcp_advanced_rate_limiter.c
@@ -693,7 +693,7 @@ mcp_advanced_rate_limiter_t* mcp_advanced_rate_limiter_create(const mcp_advanced
     limiter->client_buckets = (client_entry_t**)calloc(limiter->client_capacity, sizeof(client_entry_t*));
     if (!limiter->client_buckets) {
         mcp_log_error("Failed to allocate memory for client hash table");
-        mcp_rwlock_destroy(limiter->lock);
+        mcp_rwlock_free(limiter->lock);
         free(limiter);
         return NULL;
     }
@@ -769,7 +769,7 @@ void mcp_advanced_rate_limiter_destroy(mcp_advanced_rate_limiter_t* limiter) {
 
     // Release lock and destroy it
     mcp_rwlock_write_unlock(limiter->lock);
-    mcp_rwlock_destroy(limiter->lock);
+    mcp_rwlock_free(limiter->lock);
 
     // Free the limiter itself
     free(limiter);
-- 
2.43.0


From b597057e669bf323ddd45919f8c6eaab98f0d1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:12:53 +0000
Subject: [PATCH 61/66] fix: route gateway requests by their parameters

The parameters of a request are JSON text, which was taken for a parsed value.
---
 src/gateway/mcp_gateway_routing.c | 67 +++++++++++++++++++------------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/src/gateway/mcp_gateway_routing.c b/src/gateway/mcp_gateway_routing.c
index 29fe832..36e70c4 100644
--- a/src/gateway/mcp_gateway_routing.c
+++ b/src/gateway/mcp_gateway_routing.c
@@ -4,6 +4,7 @@
 #include "mcp_json.h"
 #include "mcp_log.h"
 #include "mcp_json_message.h"
+#include "mcp_string_utils.h"
 #include <string.h>
 #include <stdlib.h>
 
@@ -11,6 +12,22 @@
 #include <regex.h>
 #endif
 
+// Gets a copy of a string member of the request's parameters, which are JSON text
+static char* get_string_param(const mcp_request_t* request, const char* name)
+{
+    char* value = NULL;
+    const char* str = NULL;
+    mcp_json_t* params = mcp_json_parse((const char*)request->params);
+    if (params && mcp_json_get_type(params) == MCP_JSON_OBJECT) {
+        mcp_json_t* node = mcp_json_object_get_property(params, name);
+        if (node && mcp_json_get_type(node) == MCP_JSON_STRING && mcp_json_get_string(node, &str) == 0 && str) {
+            value = mcp_strdup(str);
+        }
+    }
+    mcp_json_destroy(params);
+    return value;
+}
+
 // Implementation of find_backend_for_request
 const mcp_backend_info_t* find_backend_for_request(
     const mcp_request_t* request,
@@ -25,74 +42,72 @@ const mcp_backend_info_t* find_backend_for_request(
     if (strcmp(request->method, "read_resource") == 0) {
         if (!request->params) return NULL; // Invalid request
 
-        // Params should be a parsed JSON object from handle_request
-        const mcp_json_t* params_obj = (const mcp_json_t*)request->params;
-        if (mcp_json_get_type(params_obj) != MCP_JSON_OBJECT) return NULL; // Should not happen if parsing worked
-
-        mcp_json_t* uri_node = mcp_json_object_get_property(params_obj, "uri");
-        const char* uri_str = NULL;
-        if (!uri_node || mcp_json_get_type(uri_node) != MCP_JSON_STRING || mcp_json_get_string(uri_node, &uri_str) != 0 || !uri_str) {
+        char* uri_str = get_string_param(request, "uri");
+        if (!uri_str) {
             return NULL; // Invalid params for read_resource
         }
+        const mcp_backend_info_t* match = NULL;
 
         // Iterate through backends to find a match
-        for (size_t i = 0; i < backend_count; i++) {
+        for (size_t i = 0; i < backend_count && !match; i++) {
             const mcp_backend_info_t* backend = &backends[i];
 
             // 1. Check prefixes first
-            for (size_t j = 0; j < backend->routing.resource_prefix_count; j++) {
+            for (size_t j = 0; j < backend->routing.resource_prefix_count && !match; j++) {
                 const char* prefix = backend->routing.resource_prefixes[j];
                 if (prefix && strncmp(uri_str, prefix, strlen(prefix)) == 0) {
                     mcp_log_debug("Routing resource '%s' to backend '%s' via prefix '%s'", uri_str, backend->name, prefix);
-                    return backend; // Found prefix match
+                    match = backend; // Found prefix match
                 }
             }
 
 #ifndef _WIN32
             // 2. Check regexes (POSIX only)
-            for (size_t j = 0; j < backend->routing.resource_regex_count; j++) {
+            for (size_t j = 0; j < backend->routing.resource_regex_count && !match; j++) {
                 // Use regexec to match the URI against the compiled regex
                 if (regexec(&backend->routing.compiled_resource_regexes[j], uri_str, 0, NULL, 0) == 0) {
                     // Match found
                     mcp_log_debug("Routing resource '%s' to backend '%s' via regex '%s'",
                                   uri_str, backend->name, backend->routing.resource_regex_patterns[j]);
-                    return backend; // Found regex match
+                    match = backend; // Found regex match
                 }
             }
 #endif
         }
-        mcp_log_debug("No backend route found for resource '%s'", uri_str);
-        return NULL; // No match found
+        if (!match) {
+            mcp_log_debug("No backend route found for resource '%s'", uri_str);
+        }
+        free(uri_str);
+        return match;
     }
 
     // --- Handle 'call_tool' routing ---
     if (strcmp(request->method, "call_tool") == 0) {
         if (!request->params) return NULL; // Invalid request
 
-        // Params should be a parsed JSON object
-        const mcp_json_t* params_obj = (const mcp_json_t*)request->params;
-        if (mcp_json_get_type(params_obj) != MCP_JSON_OBJECT) return NULL;
-
-        mcp_json_t* name_node = mcp_json_object_get_property(params_obj, "name");
-        const char* name_str = NULL;
-        if (!name_node || mcp_json_get_type(name_node) != MCP_JSON_STRING || mcp_json_get_string(name_node, &name_str) != 0 || !name_str) {
+        char* name_str = get_string_param(request, "name");
+        if (!name_str) {
             return NULL; // Invalid params for call_tool
         }
+        const mcp_backend_info_t* match = NULL;
 
         // Iterate through backends to find a matching tool name
-        for (size_t i = 0; i < backend_count; i++) {
+        for (size_t i = 0; i < backend_count && !match; i++) {
             const mcp_backend_info_t* backend = &backends[i];
-            for (size_t j = 0; j < backend->routing.tool_name_count; j++) {
+            for (size_t j = 0; j < backend->routing.tool_name_count && !match; j++) {
                 const char* tool_name = backend->routing.tool_names[j];
                 if (tool_name && strcmp(name_str, tool_name) == 0) {
                     mcp_log_debug("Routing tool '%s' to backend '%s'", name_str, backend->name);
-                    return backend; // Found match
+                    match = backend; // Found match
                 }
             }
             // TODO: Add regex matching for tool names if needed
         }
-        mcp_log_debug("No backend route found for tool '%s'", name_str);
-        return NULL; // No match found
+        if (!match) {
+            mcp_log_debug("No backend route found for tool '%s'", name_str);
+        }
+        free(name_str);
+        return match;
     }
 
     // --- No routing for other methods ---
-- 
2.43.0


From 15145657a05e7008682fc50d1a83a0b53cc90ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:12:53 +0000
Subject: [PATCH 62/66] fix: do not route gateway requests by their method
 alone

The backend found for one request was remembered for its method, so every later
read or tool call went to the same backend whatever it asked for.
---
 src/gateway/mcp_gateway_config_manager.c | 90 ++----------------------
 1 file changed, 5 insertions(+), 85 deletions(-)

diff --git a/src/gateway/mcp_gateway_config_manager.c b/src/gateway/mcp_gateway_config_manager.c
index 42d418c..85cf44c 100644
--- a/src/gateway/mcp_gateway_config_manager.c
+++ b/src/gateway/mcp_gateway_config_manager.c
@@ -8,19 +8,10 @@
 #include "mcp_gateway_routing.h"
 #include "mcp_log.h"
 #include "mcp_rwlock.h"
-#include "mcp_hashtable.h"
 #include <stdlib.h>
 #include <string.h>
 #include <time.h>
 
-/**
- * @brief Structure for method-to-backend cache entry
- */
-typedef struct {
-    char* method;                      /**< Method name (key) */
-    const mcp_backend_info_t* backend; /**< Pointer to backend (not owned) */
-} method_backend_cache_entry_t;
-
 /**
  * @brief Internal structure for the gateway configuration manager
  */
@@ -29,25 +20,8 @@ struct gateway_config_manager {
     mcp_rwlock_t* config_lock;         /**< Read-write lock for thread-safe access */
     mcp_backend_info_t* backend_list;  /**< Array of backend configurations */
     size_t backend_count;              /**< Number of backends in the list */
-    mcp_hashtable_t* method_cache;     /**< Cache for method-to-backend mapping */
 };
 
-// We use the standard string hash and compare functions from mcp_hashtable.h
-
-/**
- * @brief Free function for cache entries
- *
- * This function matches the mcp_value_free_func_t signature
- */
-static void cache_entry_free(void* entry) {
-    if (entry) {
-        method_backend_cache_entry_t* cache_entry = (method_backend_cache_entry_t*)entry;
-        // Note: Don't free method string as it's owned by the hashtable key management
-        // Note: Don't free backend as it's owned by the config
-        free(cache_entry);
-    }
-}
-
 /**
  * @brief Creates a new gateway configuration manager
  */
@@ -68,18 +42,11 @@ gateway_config_manager_t* gateway_config_manager_create(const char* config_path)
     manager->config_lock = mcp_rwlock_create();
     manager->backend_list = NULL;
     manager->backend_count = 0;
-    manager->method_cache = mcp_hashtable_create(64, 0.75f,
-                                                 mcp_hashtable_string_hash,
-                                                 mcp_hashtable_string_compare,
-                                                 mcp_hashtable_string_dup,
-                                                 mcp_hashtable_string_free,
-                                                 cache_entry_free);
-
-    if (!manager->config_path || !manager->config_lock || !manager->method_cache) {
+
+    if (!manager->config_path || !manager->config_lock) {
         mcp_log_error("Failed to initialize gateway config manager");
         if (manager->config_path) free(manager->config_path);
         mcp_rwlock_free(manager->config_lock);
-        if (manager->method_cache) mcp_hashtable_destroy(manager->method_cache);
         free(manager);
         return NULL;
     }
@@ -120,7 +87,6 @@ void gateway_config_manager_destroy(gateway_config_manager_t* manager) {
     // Free resources
     if (manager->config_path) free(manager->config_path);
     mcp_rwlock_free(manager->config_lock);
-    if (manager->method_cache) mcp_hashtable_destroy(manager->method_cache);
     free(manager);
 
     mcp_log_info("Gateway configuration manager destroyed");
@@ -182,12 +148,6 @@ mcp_error_code_t gateway_config_manager_reload(gateway_config_manager_t* manager
     manager->backend_list = new_backend_list;
     manager->backend_count = new_backend_count;
 
-    // Clear the method cache since backend list has changed
-    if (manager->method_cache) {
-        mcp_hashtable_clear(manager->method_cache);
-        mcp_log_debug("Method-to-backend cache cleared due to configuration reload");
-    }
-
     // Release write lock
     mcp_rwlock_write_unlock(manager->config_lock);
 
@@ -197,8 +157,6 @@ mcp_error_code_t gateway_config_manager_reload(gateway_config_manager_t* manager
 
 /**
  * @brief Finds a backend for a given request
- *
- * Optimized implementation using method-to-backend cache for faster lookups
  */
 const mcp_backend_info_t* gateway_config_manager_find_backend(
     gateway_config_manager_t* manager,
@@ -208,56 +166,18 @@ const mcp_backend_info_t* gateway_config_manager_find_backend(
         return NULL;
     }
 
-    const mcp_backend_info_t* backend = NULL;
-    method_backend_cache_entry_t* cache_entry = NULL;
-
-    // First check the cache (without locking)
-    if (manager->method_cache) {
-        void* entry_ptr = NULL;
-        if (mcp_hashtable_get(manager->method_cache, request->method, &entry_ptr) == 0 && entry_ptr) {
-            cache_entry = (method_backend_cache_entry_t*)entry_ptr;
-            backend = cache_entry->backend;
-
-            // If we found a valid backend in the cache, return it immediately
-            if (backend) {
-                mcp_log_debug("Cache hit for method '%s' -> backend '%s'",
-                             request->method, backend->name);
-                return backend;
-            }
-        }
-    }
-
-    // Cache miss, acquire read lock
+    // Acquire read lock
     mcp_rwlock_read_lock(manager->config_lock);
 
     // Find backend using the routing logic
-    backend = find_backend_for_request(
+    const mcp_backend_info_t* backend = find_backend_for_request(
         request,
         manager->backend_list,
         manager->backend_count
     );
 
-    // Release read lock before updating cache
+    // Release read lock
     mcp_rwlock_read_unlock(manager->config_lock);
 
-    // Update the cache with the result (even if NULL, to cache negative results)
-    if (manager->method_cache && request->method) {
-        // Create a new cache entry
-        cache_entry = (method_backend_cache_entry_t*)malloc(sizeof(method_backend_cache_entry_t));
-        if (cache_entry) {
-            cache_entry->method = mcp_strdup(request->method);
-            cache_entry->backend = backend;
-
-            if (cache_entry->method) {
-                // Add to cache (will replace any existing entry)
-                mcp_hashtable_put(manager->method_cache, cache_entry->method, cache_entry);
-                mcp_log_debug("Added cache entry for method '%s'", request->method);
-            } else {
-                // Failed to duplicate method string
-                free(cache_entry);
-            }
-        }
-    }
-
     return backend;
 }
-- 
2.43.0


From f9675e272bd4c28a9de2943d169cdc276dc8170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:12:53 +0000
Subject: [PATCH 63/66] fix: free the JSON tree and half-read backends of
 gateway configurations

---
 src/gateway/mcp_gateway_config.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gateway/mcp_gateway_config.c b/src/gateway/mcp_gateway_config.c
index b4ad812..e2a25a6 100644
--- a/src/gateway/mcp_gateway_config.c
+++ b/src/gateway/mcp_gateway_config.c
@@ -276,7 +276,7 @@ mcp_error_code_t load_gateway_config(
 
     if (mcp_json_get_type(root_json) != MCP_JSON_ARRAY) {
         mcp_log_error("Gateway config: Root element must be an array: %s", config_path);
-        // mcp_json_destroy(root_json); // Assuming arena cleanup handles this
+        mcp_json_destroy(root_json);
         return MCP_ERROR_PARSE_ERROR;
     }
 
@@ -284,7 +284,7 @@ mcp_error_code_t load_gateway_config(
     size_t num_backends_in_json = mcp_json_array_get_size(root_json);
     if (num_backends_in_json == 0) {
         mcp_log_info("Gateway config file contains an empty array. No backends loaded.");
-        // mcp_json_destroy(root_json);
+        mcp_json_destroy(root_json);
         return MCP_ERROR_NONE; // Valid empty config
     }
 
@@ -293,7 +293,7 @@ mcp_error_code_t load_gateway_config(
     temp_list = (mcp_backend_info_t*)malloc(backend_capacity * sizeof(mcp_backend_info_t));
     if (!temp_list) {
         mcp_log_error("Gateway config: Failed to allocate temporary backend list.");
-        // mcp_json_destroy(root_json);
+        mcp_json_destroy(root_json);
         return MCP_ERROR_INTERNAL_ERROR;
     }
     memset(temp_list, 0, backend_capacity * sizeof(mcp_backend_info_t)); // Zero initialize
@@ -393,12 +393,12 @@ mcp_error_code_t load_gateway_config(
     // 4. Success - Assign results
     *out_backend_list = temp_list;
     *out_backend_count = backend_count;
-    // mcp_json_destroy(root_json); // Assuming arena cleanup
+    mcp_json_destroy(root_json);
     return MCP_ERROR_NONE;
 
 cleanup_error:
     // Free partially populated temp list
-    mcp_free_backend_list(temp_list, backend_count); // Frees structs up to backend_count
-    // mcp_json_destroy(root_json); // Assuming arena cleanup
+    mcp_free_backend_list(temp_list, backend_capacity); // Entries not reached are empty
+    mcp_json_destroy(root_json);
     return err;
 }
-- 
2.43.0


From b3971d06c871ad06958a4cd1fb898c52a8004b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:42:33 +0000
Subject: [PATCH 64/66] fix: release the gateway pool's lock once when a
 connection cannot be made

---
 src/gateway/mcp_gateway_pool.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/gateway/mcp_gateway_pool.c b/src/gateway/mcp_gateway_pool.c
index b0d0ca0..2d79f8d 100644
--- a/src/gateway/mcp_gateway_pool.c
+++ b/src/gateway/mcp_gateway_pool.c
@@ -408,7 +408,6 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
                 mcp_log_error("Failed to create transport for %s", pool->backend_address);
                 mcp_mutex_lock(pool->pool_lock);
                 pool->total_count--;
-                mcp_mutex_unlock(pool->pool_lock);
                 goto found_connection; // Exit loop, client_connection is NULL
             }
 
@@ -419,7 +418,6 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
                 mcp_log_error("Failed to create client for %s", pool->backend_address);
                 mcp_mutex_lock(pool->pool_lock);
                 pool->total_count--;
-                mcp_mutex_unlock(pool->pool_lock);
                 goto found_connection; // Exit loop, client_connection is NULL
             }
 
-- 
2.43.0


From b8aba7db54676528e67438d5e61e61bcfb271584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:42:33 +0000
Subject: [PATCH 65/66] fix: start over with the idle list after the gateway
 pool was unlocked

---
 src/gateway/mcp_gateway_pool.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gateway/mcp_gateway_pool.c b/src/gateway/mcp_gateway_pool.c
index 2d79f8d..73d49b1 100644
--- a/src/gateway/mcp_gateway_pool.c
+++ b/src/gateway/mcp_gateway_pool.c
@@ -345,6 +345,8 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
                 mcp_client_destroy(client_to_destroy);
                 free(node_to_free);
                 mcp_mutex_lock(pool->pool_lock); // Relock
+                idle_node = pool->idle_list; // Others may have changed the list meanwhile
+                prev_idle_node = NULL;
             } else {
                 if (prev_idle_node) {
                     prev_idle_node->next = idle_node->next;
-- 
2.43.0


From e4b533d28cb9f44fe8ca55e8aa196ae939cb0921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:42:33 +0000
Subject: [PATCH 66/66] fix: wake a waiting getter when a gateway connection
 goes away

---
 src/gateway/mcp_gateway_pool.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gateway/mcp_gateway_pool.c b/src/gateway/mcp_gateway_pool.c
index 73d49b1..7905952 100644
--- a/src/gateway/mcp_gateway_pool.c
+++ b/src/gateway/mcp_gateway_pool.c
@@ -410,6 +410,7 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
                 mcp_log_error("Failed to create transport for %s", pool->backend_address);
                 mcp_mutex_lock(pool->pool_lock);
                 pool->total_count--;
+                mcp_cond_signal(pool->pool_cond); // A waiting getter may try instead
                 goto found_connection; // Exit loop, client_connection is NULL
             }
 
@@ -420,6 +421,7 @@ void* gateway_pool_get_connection(gateway_pool_manager_t* manager, const mcp_bac
                 mcp_log_error("Failed to create client for %s", pool->backend_address);
                 mcp_mutex_lock(pool->pool_lock);
                 pool->total_count--;
+                mcp_cond_signal(pool->pool_cond); // A waiting getter may try instead
                 goto found_connection; // Exit loop, client_connection is NULL
             }
 
@@ -547,6 +549,7 @@ void gateway_pool_release_connection(gateway_pool_manager_t* manager, const mcp_
             // Too many idle connections, destroy this one
             if (pool->active_count > 0) pool->active_count--;
             if (pool->total_count > 0) pool->total_count--;
+            mcp_cond_signal(pool->pool_cond); // A waiting getter may make a new one
             mcp_mutex_unlock(pool->pool_lock);
             mcp_client_destroy(client);
             mcp_log_debug("Too many idle connections (%zu/%zu), destroyed connection for %s",
@@ -572,6 +575,7 @@ void gateway_pool_release_connection(gateway_pool_manager_t* manager, const mcp_
             if (pool->active_count > 0) pool->active_count--;
             // Decrement total_count as the connection is being destroyed
             if (pool->total_count > 0) pool->total_count--;
+            mcp_cond_signal(pool->pool_cond); // A waiting getter may make a new one
             mcp_mutex_unlock(pool->pool_lock);
             mcp_client_destroy(client);
             return;
@@ -581,6 +585,7 @@ void gateway_pool_release_connection(gateway_pool_manager_t* manager, const mcp_
         mcp_log_warn("Connection to %s is unhealthy, destroying it", pool->backend_address);
         if (pool->active_count > 0) pool->active_count--;
         if (pool->total_count > 0) pool->total_count--;
+        mcp_cond_signal(pool->pool_cond); // A waiting getter may make a new one
         mcp_mutex_unlock(pool->pool_lock);
         mcp_client_destroy(client);
         return;
-- 
2.43.0

