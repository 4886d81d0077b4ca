From bab7c994cf5aa74e290a7fc5474ea9c328333398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:16 +0000
Subject: [PATCH 01/67] fix: md5sum wrote 129 bytes into the caller's 36 byte
 buffer

Storing an uploaded file overflowed the stack of save_tmp_file.
---
 string_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string_utils.c b/string_utils.c
index 1c220d7..b80acd6 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -125,8 +125,8 @@ void md5sum(char *out, char *data, int len)
   for (i = 0; i < EVP_MD_size(md); ++i)
     snprintf(&(md5[i * 2]), EVP_MAX_MD_SIZE * 2 + 1, "%02x", (unsigned int)digest[i]);
   
-  memcpy(out, md5, EVP_MAX_MD_SIZE * 2);
-  out[EVP_MAX_MD_SIZE * 2] = 0;
+  // An MD5 digest has 32 hexadecimal digits; callers provide room for those only.
+  strcpy(out, md5);
   free(md5);
 }
 
-- 
2.43.0


From 35c32c341a2c9ee43d906305a4beadf15b44eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:17 +0000
Subject: [PATCH 02/67] fix: connection limits admitted one request more than
 configured

---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index a142e34..427dbc9 100644
--- a/ws.c
+++ b/ws.c
@@ -393,12 +393,12 @@ bool connection_validate(char *IP, char *path)
 			int total = 0;
 			int by_ip = 0;
 			get_live_stats(limits[i].path, IP, &total, &by_ip);
-			if (total > limits[i].max_connections)
+			if (total >= limits[i].max_connections)
 			{
 				log_debug("IP:%s denied, max_connections exceeded for %s", IP, limits[i].path);
 				return false;
 			}
-			if (by_ip > limits[i].max_connections_per_ip)
+			if (by_ip >= limits[i].max_connections_per_ip)
 			{
 				log_debug("IP:%s denied, max_connections_per_ip exceeded for %s", IP, limits[i].path);
 				return false;
-- 
2.43.0


From a7f9aed0add194f0e0494bcdbc2791a61aa9e88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:18 +0000
Subject: [PATCH 03/67] fix: count and register a connection in one critical
 section

Two workers could both count the same live connections, or pick the same
free slot, and so exceed a limit or lose a registration.
---
 ws.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ws.c b/ws.c
index 427dbc9..265710d 100644
--- a/ws.c
+++ b/ws.c
@@ -38,6 +38,8 @@ pthread_cond_t ws_cond;
 ws_queue *ws_threads_queue;
 SSL_CTX *ctx;
 connections *live_connections;
+// Protects live_connections: counting and registering must be one step.
+pthread_mutex_t live_connections_mutex = PTHREAD_MUTEX_INITIALIZER;
 path_limits *limits;
 
 char WAYUU_WS_ROOT[ROOT_PATH_MAX];
@@ -422,6 +424,7 @@ void connection_close(api_request *req)
 /* Removes socket from live_connections */
 void connection_del(int socket)
 {
+	pthread_mutex_lock(&live_connections_mutex);
 	for (int i = 0; i < WS_MAX_CONNECTIONS; i++)
 	{
 		if (live_connections[i].socket == socket)
@@ -432,13 +435,18 @@ void connection_del(int socket)
 			break;
 		}
 	}
+	pthread_mutex_unlock(&live_connections_mutex);
 }
 
 /* Adds socket to live_connections (if allowed) */
 bool connection_add(int socket, char *IP, char *path)
 {
+	pthread_mutex_lock(&live_connections_mutex);
 	if (!connection_validate(IP, path))
+	{
+		pthread_mutex_unlock(&live_connections_mutex);
 		return false;
+	}
 
 	for (int i = 0; i < WS_MAX_CONNECTIONS; i++)
 	{
@@ -447,10 +455,12 @@ bool connection_add(int socket, char *IP, char *path)
 			live_connections[i].socket = socket;
 			strcpy(live_connections[i].path, path);
 			strcpy(live_connections[i].IP, IP);
+			pthread_mutex_unlock(&live_connections_mutex);
 			return true;
 		}
 	}
 
+	pthread_mutex_unlock(&live_connections_mutex);
 	log_debug("WS_MAX_CONNECTIONS reached");
 	return false;
 }
-- 
2.43.0


From b00d354abc9d3d0b7d17e0e80f8fe4656ab97ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:19 +0000
Subject: [PATCH 04/67] fix: unregister a connection before its descriptor can
 be reused

connection_del after close could remove the registration of a newer
connection that got the same descriptor number.
---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 265710d..68eb310 100644
--- a/ws.c
+++ b/ws.c
@@ -417,8 +417,9 @@ void connection_close(api_request *req)
 		SSL_shutdown(req->ssl);
 		SSL_free(req->ssl);
 	}
-	close(req->socket);
+	// Unregister first: once closed, the descriptor number may belong to a newer connection.
 	connection_del(req->socket);
+	close(req->socket);
 }
 
 /* Removes socket from live_connections */
-- 
2.43.0


From e2aee86165efe3e8675d7e9ae0b7dc4d1804ba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:19 +0000
Subject: [PATCH 05/67] fix: close the socket of a connection dropped because
 the queue is full

---
 ws.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ws.c b/ws.c
index 68eb310..c049292 100644
--- a/ws.c
+++ b/ws.c
@@ -812,6 +812,7 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 			else
 			{
 				log_warn("IP:%s Connection dropped. No threads available", IP);
+				close(client_sock);
 			}
 			pthread_mutex_unlock(&ws_mutex);
 			pthread_cond_signal(&ws_cond);
-- 
2.43.0


From 0c90765ba31a4701ed4847ae3d72db2d7dcef36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:48 +0000
Subject: [PATCH 06/67] fix: static requests could read files outside the
 document root

A target with ".." segments is now treated as a file that does not exist.
---
 ws.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index c049292..66ae85f 100644
--- a/ws.c
+++ b/ws.c
@@ -312,6 +312,17 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 	router_handle_request(req);
 }
 
+/* Returns true if any of the segments of the path is ".." */
+static bool has_parent_segment(char *path)
+{
+	for (char *p = strstr(path, ".."); p; p = strstr(p + 1, ".."))
+	{
+		if ((p == path || p[-1] == '/') && (p[2] == 0 || p[2] == '/'))
+			return true;
+	}
+	return false;
+}
+
 void handle_static_routes(api_request *req)
 {
 	log_debug("Handle static route: %s", req->path);
@@ -344,7 +355,7 @@ void handle_static_routes(api_request *req)
 
 	log_debug("IP:%s GET: %s, PATH: %s", req->IP, req->path, path);
 	// If the file is not found return /index.html
-	if (direct_file(req, path) < 0)
+	if (has_parent_segment(req->path) || direct_file(req, path) < 0)
 	{
 		sprintf(path, "%s/%s", WAYUU_STATIC_ROOT, WWW_INDEX);
 		direct_file(req, path);
-- 
2.43.0


From e3b3b82b31b4c58c80b309f64d8ac005bf56339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:49 +0000
Subject: [PATCH 07/67] fix: static folder targets looked at an uninitialised
 buffer

The trailing slash has to be looked for in the request path.
---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 66ae85f..afb55a3 100644
--- a/ws.c
+++ b/ws.c
@@ -327,7 +327,7 @@ void handle_static_routes(api_request *req)
 {
 	log_debug("Handle static route: %s", req->path);
 	char path[1024];
-	int pathlen = strlen(path);
+	int pathlen = strlen(req->path);
 	/**
 	 *  Handle default routes. URL Rewritting.
 	 */
@@ -343,7 +343,7 @@ void handle_static_routes(api_request *req)
 		req->path = strdup(FAVICON_URL);
 	}
 	// If static route ends with '/', then redirect to the index.html in the folder.
-	else if (path[pathlen-1] == '/')
+	else if (pathlen > 0 && req->path[pathlen-1] == '/')
 	{
 
 		sprintf(path, "%s%s", req->path, "index.html");
-- 
2.43.0


From 930341f8f45d79143f02463f65b3c1ef7b0d89be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:50 +0000
Subject: [PATCH 08/67] fix: answer 404 when neither the static file nor the
 index exists

The client got no answer at all.
---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index afb55a3..8d266c7 100644
--- a/ws.c
+++ b/ws.c
@@ -358,7 +358,8 @@ void handle_static_routes(api_request *req)
 	if (has_parent_segment(req->path) || direct_file(req, path) < 0)
 	{
 		sprintf(path, "%s/%s", WAYUU_STATIC_ROOT, WWW_INDEX);
-		direct_file(req, path);
+		if (direct_file(req, path) < 0)
+			not_found(req);
 	}
 }
 
-- 
2.43.0


From 8d529a84878d1c1448411f8142d4fdd10b6f34ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:51 +0000
Subject: [PATCH 09/67] fix: static replies sent the status line and server
 header twice

---
 http_utils.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index f848dd7..8aba2a2 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -89,8 +89,6 @@ int return_headers(api_request *req, char *filename)
 	int len = 0;
 	char buf[1024];
 	sprintf(buf, "%s%s", HTTP_OK_START, WAYUU_HTTP_SERVER_STRING);
-	len += strlen(buf);
-	http_print(req, buf, len);
 	char *content_type = get_content_type(filename);
 	strcat(buf, content_type);
 	free(content_type);
-- 
2.43.0


From 2849346c963ce6262d0c0cf3892656639ce8892b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:52 +0000
Subject: [PATCH 10/67] fix: content type of .csv, .yaml and unknown file
 extensions

The comparison with .csv was inverted.
---
 http_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http_utils.c b/http_utils.c
index 8aba2a2..037c8e0 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -129,7 +129,7 @@ char *get_content_type(char *filename)
 		sprintf(buf, CONTENT_TYPE_ICON);
 	else if (strcmp(ext, ".txt") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_PLAIN);
-	else if (strcmp(ext, ".csv"))
+	else if (strcmp(ext, ".csv") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_CSV);
 	else if (strcmp(ext, ".yaml") == 0)
 	{
-- 
2.43.0


From 39b1d6ca7bcd9087391a23c9857984f62622d4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:53 +0000
Subject: [PATCH 11/67] fix: content type header for text/csv, text/yaml and
 unknown mime types

The comparison with text/csv was inverted.
---
 http_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http_utils.c b/http_utils.c
index 037c8e0..d224509 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -157,7 +157,7 @@ char *get_content_type_for_mime(char *mime)
 		sprintf(buf, CONTENT_TYPE_CSS);
 	else if (strcmp(mime, "text/plain") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_PLAIN);
-	else if (strcmp(mime, "text/csv"))
+	else if (strcmp(mime, "text/csv") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_CSV);
 	else if (strcmp(mime, "text/yaml") == 0)
 	{
-- 
2.43.0


From 1f064d68a7dc025271197544450a81ced17a3f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:54 +0000
Subject: [PATCH 12/67] fix: URL splitting crashed without a path and cut the
 query at a second '?'

It also used strtok, which mixes up concurrent requests.
---
 http_utils.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index d224509..a16a28a 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -450,20 +450,20 @@ path_and_query_t *get_path_and_query_string(char *url)
 
 	path_and_query_t *result = malloc(sizeof(path_and_query_t));
 
-	str_list_t *list = split(url, "?");
+	// The query string is everything after the first '?'
+	char *query = strchr(url, '?');
 
-	result->path = strdup(list->strings[0]);
+	result->path = query ? strndup(url, query - url) : strdup(url);
 
-	if (list->n_str > 1)
+	if (query && query[1])
 	{
-		result->query = strdup(list->strings[1]);
+		result->query = strdup(query + 1);
 	}
 	else
 	{
 		result->query = "";
 	}
 
-	free_str_list_t(list);
 	return result;
 }
 
-- 
2.43.0


From 83c3730b1cf5e72339980c65e823fb96ce933901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:10 +0000
Subject: [PATCH 13/67] fix: short request lines wrote before the start of
 request_line

An empty or one byte request made strlen - 2 wrap around.
---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 8d266c7..5c07418 100644
--- a/ws.c
+++ b/ws.c
@@ -519,8 +519,8 @@ void accept_request(int socket)
 	log_trace("IP: %s, Request: %s", req->IP, buf);
 
 	req->request_line = strdup(buf);
-	// The request line ends in the two characters \r\n
-	req->request_line[strlen(req->request_line) - 2] = 0;
+	// Remove the line end, \r\n or \n. There is none if the client stopped early.
+	req->request_line[strcspn(req->request_line, "\r\n")] = 0;
 
 	// HTTP METHOD
 	i = 0;
-- 
2.43.0


From 75fc5c69fe917a62f9d9670e3b711bd81876fca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:11 +0000
Subject: [PATCH 14/67] fix: do not process requests whose header section is
 incomplete

---
 ws.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ws.c b/ws.c
index 5c07418..cc6c7cf 100644
--- a/ws.c
+++ b/ws.c
@@ -644,6 +644,15 @@ void accept_request(int socket)
 
 	req->n_headers = headers_idx;
 
+	// The client stopped before the end of the headers: there is no request to process.
+	if (numchars <= 0)
+	{
+		log_debug("IP:%s Incomplete request headers", req->IP);
+		connection_close(req);
+		free(req);
+		return;
+	}
+
 	// ROUTE HANDLING LOGIC
 	// query string and path
 	path_and_query_t *pq = get_path_and_query_string(url);
-- 
2.43.0


From c3c75c416f2a52d1aa4e91bae8d7c43b4c702664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:12 +0000
Subject: [PATCH 15/67] fix: do not process requests whose body is incomplete

The missing bytes were made up by repeating the last one received.
---
 ws.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index cc6c7cf..8916367 100644
--- a/ws.c
+++ b/ws.c
@@ -298,7 +298,11 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 		long formptr = 0;
 		for (int i = 0; i < content_length; i++)
 		{
-			http_read_char(req, &c);
+			if (http_read_char(req, &c) <= 0)
+			{
+				log_debug("IP:%s Incomplete request body", req->IP);
+				return;
+			}
 			req->form[formptr++] = c;
 			req->form[formptr] = 0;
 		}
-- 
2.43.0


From a588883036ac37352739270543302fcc88abdfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:12 +0000
Subject: [PATCH 16/67] fix: Content-Type and Content-Length required exactly
 one space after the colon

Without it the first digit or letter was lost. The content type also kept its
line end.
---
 ws.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ws.c b/ws.c
index 8916367..a8ed8bd 100644
--- a/ws.c
+++ b/ws.c
@@ -482,6 +482,13 @@ bool connection_add(int socket, char *IP, char *path)
 	return false;
 }
 
+/* Returns the value in a header line, without the white space that may precede it */
+static char *header_value(char *line)
+{
+	char *value = strchr(line, ':') + 1;
+	return value + strspn(value, " \t");
+}
+
 /**
  * accept_request: Main request handling routine. It performs initial parsing of structures,
  * generates api_request structure
@@ -602,10 +609,11 @@ void accept_request(int socket)
 		}
 		if (startswith(buf, "Content-Type:"))
 		{
-			req->content_type = rtrim(&(buf[14]), ';');
+			req->content_type = rtrim(header_value(buf), ';');
+			trim(req->content_type);
 		}
 		/* Get multipart boundary */
-		if (startswith(buf, "Content-Type: multipart/form-data"))
+		if (startswith(buf, "Content-Type:") && startswith(header_value(buf), "multipart/form-data"))
 		{
 			char *boundary = strcasestr(buf, "boundary=");
 			if (boundary)
@@ -618,7 +626,7 @@ void accept_request(int socket)
 		/* Get content length */
 		if (startswith(buf, "Content-Length:"))
 		{
-			content_length = atoi(&(buf[16]));
+			content_length = atoi(header_value(buf));
 		}
 
 		// Get original IP if behind proxy
-- 
2.43.0


From 9de70e58ccada9cd8938e18312d311ec797f58df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:13 +0000
Subject: [PATCH 17/67] fix: X-Real-IP required exactly one space after the
 colon

An empty value read left-overs of earlier header lines.
---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index a8ed8bd..5a16983 100644
--- a/ws.c
+++ b/ws.c
@@ -635,7 +635,7 @@ void accept_request(int socket)
 			free(req->IP);
 			req->IP = calloc(26, 1);
 			trim(buf);
-			strncpy(req->IP, buf + 11, 24);
+			strncpy(req->IP, header_value(buf), 24);
 		}
 
 		/* Get Session */
-- 
2.43.0


From 6d95342af8c37ed46da262d7a9ef8e0a5732e970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:14 +0000
Subject: [PATCH 18/67] fix: session taken from X-Session and Authorization
 headers

The value was read at a fixed offset that fits neither header, and could be
left without terminator.
---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 5a16983..0b8ac22 100644
--- a/ws.c
+++ b/ws.c
@@ -641,7 +641,7 @@ void accept_request(int socket)
 		/* Get Session */
 		if (startswithany(buf, COOKIE_HEADERS))
 		{
-			strncpy(req->session, buf + 10, MAX_SESSION);
+			strncpy(req->session, header_value(buf), MAX_SESSION - 1);
 			trim(req->session);
 		}
 
-- 
2.43.0


From 9aa84721213d5c1efd4b0211f7f6b076b7dbd254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:15 +0000
Subject: [PATCH 19/67] fix: session taken from the WSSESSION cookie

Any cookie was taken for the session, with left-overs of earlier lines and the
line end, which then broke the headers of static replies.
---
 ws.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 0b8ac22..24e4a43 100644
--- a/ws.c
+++ b/ws.c
@@ -482,6 +482,27 @@ bool connection_add(int socket, char *IP, char *path)
 	return false;
 }
 
+/* Gets the session from the WSSESSION cookie, if there is one */
+static void session_from_cookies(char *session, char *cookies)
+{
+	const char name[] = "WSSESSION=";
+	while (*cookies)
+	{
+		cookies += strspn(cookies, "; \t");
+		if (!strncmp(cookies, name, strlen(name)))
+		{
+			cookies += strlen(name);
+			size_t len = strcspn(cookies, "; \t\r\n");
+			if (len > MAX_SESSION - 1)
+				len = MAX_SESSION - 1;
+			memcpy(session, cookies, len);
+			session[len] = 0;
+			return;
+		}
+		cookies += strcspn(cookies, ";");
+	}
+}
+
 /* Returns the value in a header line, without the white space that may precede it */
 static char *header_value(char *line)
 {
@@ -647,8 +668,7 @@ void accept_request(int socket)
 
 		if (startswith(buf, "Cookie:") && req->session[0] == 0)
 		{
-			if (strlen(buf + 18) < MAX_SESSION)
-				strcpy(req->session, buf + 18);
+			session_from_cookies(req->session, header_value(buf));
 		}
 
 		numchars = get_line(req, buf, sizeof(buf));
-- 
2.43.0


From e0ac74b5c6ef48d67913b5485be96143226e0264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:15 +0000
Subject: [PATCH 20/67] fix: long header names and values were stored without
 terminator

---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 24e4a43..ccf6eef 100644
--- a/ws.c
+++ b/ws.c
@@ -621,9 +621,9 @@ void accept_request(int socket)
 			if (nameval->n_str > 1)
 			{
 				log_trace("Found header: %s, %s", nameval->strings[0], nameval->strings[1]);
-				strncpy(req->headers[headers_idx].name, nameval->strings[0], HTTP_MAX_HEADER_NAME);
+				strncpy(req->headers[headers_idx].name, nameval->strings[0], HTTP_MAX_HEADER_NAME - 1);
 				trim(nameval->strings[1]);
-				strncpy(req->headers[headers_idx].value, nameval->strings[1], HTTP_MAX_HEADER_VALUE);
+				strncpy(req->headers[headers_idx].value, nameval->strings[1], HTTP_MAX_HEADER_VALUE - 1);
 				headers_idx++;
 			}
 			free_str_list_t(nameval);
-- 
2.43.0


From 92815c2be7b083f7a87dab877cd499ded1afda34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:16 +0000
Subject: [PATCH 21/67] fix: drop connections whose TLS handshake failed

They went on to be processed as requests.
---
 ws.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ws.c b/ws.c
index ccf6eef..3cbba56 100644
--- a/ws.c
+++ b/ws.c
@@ -542,6 +542,10 @@ void accept_request(int socket)
 		if (SSL_accept(ssl) <= 0)
 		{
 			log_warn("SSL connection failed from IP: %s\n", req->IP);
+			req->ssl = ssl;
+			connection_close(req);
+			free(req);
+			return;
 		}
 		req->ssl = ssl;
 	}
-- 
2.43.0


From 8f934916a060bc354ee2eb6c6ad7ea419040ae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:17 +0000
Subject: [PATCH 22/67] fix: long request paths overflowed a buffer of the
 router

---
 router.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/router.c b/router.c
index 15d5bed..abd70d1 100644
--- a/router.c
+++ b/router.c
@@ -117,9 +117,8 @@ void router_handle_request(api_request *request)
   request_handler handler = NULL;
   request_filter filter = NULL;
 
-  char matcher[255];
-
   // Match method:path
+  char matcher[strlen(request->method) + strlen(request->path) + 2];
   sprintf(matcher, "%s:%s", request->method, request->path);
 
   for (int i = 0; i < routing_table.n_routes; i++)
-- 
2.43.0


From 77d54aa7e98921d1c5576a9603fa89aae62faad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:18 +0000
Subject: [PATCH 23/67] fix: routes with a parameter matched text anywhere in
 the request

The route has to be a prefix of method and path.
---
 router.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.c b/router.c
index abd70d1..c7966ee 100644
--- a/router.c
+++ b/router.c
@@ -131,7 +131,7 @@ void router_handle_request(api_request *request)
       filter = routing_table.filters[i];
       break;
     }
-    else if (type == MATCHER_TYPE_PARAM && strstr(matcher, template) != NULL && strcmp(template, matcher) != 0)
+    else if (type == MATCHER_TYPE_PARAM && strncmp(matcher, template, strlen(template)) == 0 && strcmp(template, matcher) != 0)
     {
       char *qs = router_extract_param(matcher, routing_table.matchers[i]);
       if (strlen(request->form) == 0)
-- 
2.43.0


From 01c0c36924cdd7d8a98729751ce0ebbf47789818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:18 +0000
Subject: [PATCH 24/67] fix: appending a path parameter to the form data
 overflowed the form

---
 router.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/router.c b/router.c
index c7966ee..8c6945c 100644
--- a/router.c
+++ b/router.c
@@ -140,10 +140,10 @@ void router_handle_request(api_request *request)
       }
       else
       {
-        char *param;
-        asprintf(&param, "&%s", qs);
-        strcat(request->form, param);
-        free(param);
+        char *form;
+        asprintf(&form, "%s&%s", request->form, qs);
+        free(request->form);
+        request->form = form;
       }
       free(qs);
       handler = routing_table.handlers[i];
-- 
2.43.0


From 55ec8ecf85c97959cb22c288ef7d0d65385983be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:19 +0000
Subject: [PATCH 25/67] fix: address lists matched parts of addresses and
 overflowed a buffer

An address is listed only by a line that is that address, in files of any size.
---
 file_utils.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/file_utils.c b/file_utils.c
index 69393a7..397aeac 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -15,12 +15,14 @@
  * You should have received a copy of the GNU General Public License
  * along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
+#define _GNU_SOURCE
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 #include <sys/stat.h>
 #include "log.h"
 #include "file_utils.h"
+#include "string_utils.h"
 
 bool find_in_file(char *path, char *needle)
 {
@@ -32,13 +34,22 @@ bool find_in_file(char *path, char *needle)
 
   bool result = false;
 
-  char *haystack = calloc(8192, 1);
-  read_file(haystack, path, 0);
-
-  if (strstr(haystack, needle))
-    result = true;
+  FILE *file = fopen(path, "r");
+  if (file == NULL)
+  {
+    return false;
+  }
 
-  free(haystack);
+  char *line = NULL;
+  size_t len = 0;
+  while (!result && getline(&line, &len, file) != -1)
+  {
+    trim(line);
+    if (!strcmp(line, needle))
+      result = true;
+  }
+  free(line);
+  fclose(file);
   return result;
 }
 
-- 
2.43.0


From f59ebe23418d3cd90d6c298256505ea0f84160a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:54 +0000
Subject: [PATCH 26/67] fix: a short multipart part was followed by left-overs
 of the previous one

---
 ws.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ws.c b/ws.c
index 3cbba56..05006d9 100644
--- a/ws.c
+++ b/ws.c
@@ -265,6 +265,7 @@ void multipart_parse(char *form, char *IP, char *multipart_boundary, long conten
 
 		int tmppart_len = part_end - part_start - strlen(multipart_boundary);
 		memcpy(tmppart, form + part_start, tmppart_len);
+		tmppart[tmppart_len] = 0;
 
 		part_parse(IP, tmpfields, tmppart, tmppart_len);
 
-- 
2.43.0


From a16b9430d7fa0c025c246102e9aa424255bf5eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:55 +0000
Subject: [PATCH 27/67] fix: malformed multipart parts were copied with a
 negative length

---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 05006d9..0e193d9 100644
--- a/ws.c
+++ b/ws.c
@@ -189,7 +189,8 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 			sprintf(tmpfields + strlen(tmpfields), "&");
 
 		long start_file = text_find_after(tmpdata, "; filename=\"", 0, strlen(tmpdata));
-		if (data_start > 0)
+		/* The data ends in \r\n, the line end that precedes the boundary */
+		if (data_start > 0 && data_start + 2 <= actuallength)
 		{
 			/* Save filename */
 			if (start_file > 0)
-- 
2.43.0


From 4372544a52f99ba18b17de9ac2a60b50ebbb0620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:55 +0000
Subject: [PATCH 28/67] fix: content of a multipart part was searched for part
 headers

---
 ws.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ws.c b/ws.c
index 0e193d9..a2e4755 100644
--- a/ws.c
+++ b/ws.c
@@ -168,7 +168,9 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 {
 
 	long actuallength = length;
-	long start = text_find_after(tmpdata, "form-data; name=\"", 0, strlen(tmpdata));
+	/* The part headers end at the first empty line */
+	long data_start = text_find_after(tmpdata, "\r\n\r\n", 0, actuallength);
+	long start = text_find_after(tmpdata, "form-data; name=\"", 0, data_start);
 	if (start < 1)
 	{
 		log_warn("IP:%s Multipart error: Form-data not found ", IP);
@@ -183,12 +185,11 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 		memcpy(field, tmpdata + start, bytes);
 		field[bytes] = 0;
 		chop_string(field);
-		long data_start = text_find_after(tmpdata, "\r\n\r\n", 0, actuallength);
 		/* If there is already data in tmpfields, start with & */
 		if (strlen(tmpfields) > 0)
 			sprintf(tmpfields + strlen(tmpfields), "&");
 
-		long start_file = text_find_after(tmpdata, "; filename=\"", 0, strlen(tmpdata));
+		long start_file = text_find_after(tmpdata, "; filename=\"", 0, data_start);
 		/* The data ends in \r\n, the line end that precedes the boundary */
 		if (data_start > 0 && data_start + 2 <= actuallength)
 		{
-- 
2.43.0


From e5809a94b80ee2e90aed3af205d1d2a11d2a97a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:56 +0000
Subject: [PATCH 29/67] fix: multipart field and file names were cut at spaces
 and non ASCII characters

---
 ws.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index a2e4755..cce4c41 100644
--- a/ws.c
+++ b/ws.c
@@ -184,7 +184,8 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 
 		memcpy(field, tmpdata + start, bytes);
 		field[bytes] = 0;
-		chop_string(field);
+		/* The name ends at the closing quote */
+		field[strcspn(field, "\"\r\n")] = 0;
 		/* If there is already data in tmpfields, start with & */
 		if (strlen(tmpfields) > 0)
 			sprintf(tmpfields + strlen(tmpfields), "&");
@@ -224,7 +225,8 @@ void save_tmp_file(char *tmpfields, char *field, long start_file, char *tmpdata,
 	strncpy(orig_filename, tmpdata + start_file, MAX_ORIG_FILENAME);
 	// Add string termination to last character to prevent strlen errors.
 	orig_filename[MAX_ORIG_FILENAME - 1] = 0;
-	chop_string(orig_filename);
+	// The file name ends at the closing quote
+	orig_filename[strcspn(orig_filename, "\"\r\n")] = 0;
 	log_debug("Original filename %s\n", orig_filename);
 
 	
-- 
2.43.0


From 51137cd28dac5a63e53a43ef1ae590d9bec6c4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:57 +0000
Subject: [PATCH 30/67] fix: many small multipart files overflowed the form
 buffer

The names of the temporary files make the form longer than the request body.
---
 ws.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/ws.c b/ws.c
index cce4c41..7a09d44 100644
--- a/ws.c
+++ b/ws.c
@@ -247,11 +247,19 @@ void save_tmp_file(char *tmpfields, char *field, long start_file, char *tmpdata,
 	sprintf(tmpfields + strlen(tmpfields), "%s=%s&tmpfile=%s", field, orig_filename, tmpfile);
 }
 
-void multipart_parse(char *form, char *IP, char *multipart_boundary, long content_length)
+/**
+ * multipart_parse: Returns the fields of the multipart form, dynamically allocated
+ */
+char *multipart_parse(char *form, char *IP, char *multipart_boundary, long content_length)
 {
 
+	/* Each part adds at most its own bytes, separators and the name of its temporary file */
+	long size = content_length + 1;
+	for (long p = 0; (p = text_find_after(form, multipart_boundary, p, content_length)) > 0;)
+		size += 128;
+
 	char *tmppart = calloc(content_length + 1, 1);
-	char *tmpfields = calloc(content_length + 1, 1);
+	char *tmpfields = calloc(size, 1);
 
 	long ptr = 0;
 	long part_start;
@@ -277,10 +285,8 @@ void multipart_parse(char *form, char *IP, char *multipart_boundary, long conten
 		ptr = part_start + 1;
 	}
 
-	strcpy(form, tmpfields);
-
-	free(tmpfields);
 	free(tmppart);
+	return tmpfields;
 }
 
 void handle_api_request(api_request *req, long content_length, char *multipart_boundary)
@@ -314,8 +320,11 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 
 		/* If multipart boundary is at least = "--", then parse multipart */
 		if (strlen(multipart_boundary) >= 2)
-			multipart_parse(req->form, req->IP, multipart_boundary, content_length);
-		
+		{
+			char *fields = multipart_parse(req->form, req->IP, multipart_boundary, content_length);
+			free(req->form);
+			req->form = fields;
+		}
 	}
 	// Delegate request to router
 	router_handle_request(req);
-- 
2.43.0


From a29810451022c9dd258fd2e40e36c4f797ec5b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:58 +0000
Subject: [PATCH 31/67] fix: long multipart boundaries overflowed a buffer

---
 ws.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 7a09d44..4df34ee 100644
--- a/ws.c
+++ b/ws.c
@@ -623,7 +623,8 @@ void accept_request(int socket)
 
 	/* Parse remaining part of the HTTP header section */
 	long content_length = -1;
-	char multipart_boundary[100] = "\0";
+	char multipart_boundary[sizeof(buf) + 2];
+	multipart_boundary[0] = 0;
 	numchars = 1;
 	buf[0] = 'A';
 	buf[1] = '\0';
@@ -657,7 +658,7 @@ void accept_request(int socket)
 			char *boundary = strcasestr(buf, "boundary=");
 			if (boundary)
 			{
-				sprintf(multipart_boundary, "--%s", boundary + strlen("boundary=")); // TODO: Validate size
+				sprintf(multipart_boundary, "--%s", boundary + strlen("boundary="));
 				trim(multipart_boundary);
 			}
 		}
-- 
2.43.0


From 792db54c253deeddb222d70dd09ddaaba1b4af10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:58 +0000
Subject: [PATCH 32/67] fix: multipart boundaries in quotes or followed by
 other parameters

---
 ws.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 4df34ee..8e12767 100644
--- a/ws.c
+++ b/ws.c
@@ -658,7 +658,10 @@ void accept_request(int socket)
 			char *boundary = strcasestr(buf, "boundary=");
 			if (boundary)
 			{
-				sprintf(multipart_boundary, "--%s", boundary + strlen("boundary="));
+				boundary += strlen("boundary=");
+				sprintf(multipart_boundary, "--%s", *boundary == '"' ? boundary + 1 : boundary);
+				/* It ends at the closing quote or at the next parameter */
+				multipart_boundary[strcspn(multipart_boundary, *boundary == '"' ? "\"" : ";")] = 0;
 				trim(multipart_boundary);
 			}
 		}
-- 
2.43.0


From 4530c5b7a77da0ed6bdad7e613f01db886decb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:59 +0000
Subject: [PATCH 33/67] fix: text_find_after read and matched beyond the end of
 the text

---
 string_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string_utils.c b/string_utils.c
index b80acd6..266a929 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -263,7 +263,7 @@ long text_find_after(char *haystack, char *needle, long start, long bytes)
 {
 
   int l = strlen(needle);
-  for (long i = start; i < bytes; i++)
+  for (long i = start; i + l <= bytes; i++)
   {
     bool found = true;
     for (int b = 0; b < l; b++)
-- 
2.43.0


From 529a36c5e9aa9e0748a050ff6fa026c75aa05238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:00 +0000
Subject: [PATCH 34/67] fix: URLs over 254 bytes were cut and processed as a
 different URL

URLs up to HTTP_MAX_PATH are processed, longer ones rejected.
---
 ws.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 8e12767..57e16bc 100644
--- a/ws.c
+++ b/ws.c
@@ -344,7 +344,7 @@ static bool has_parent_segment(char *path)
 void handle_static_routes(api_request *req)
 {
 	log_debug("Handle static route: %s", req->path);
-	char path[1024];
+	char path[2 * ROOT_PATH_MAX + HTTP_MAX_PATH + 32];
 	int pathlen = strlen(req->path);
 	/**
 	 *  Handle default routes. URL Rewritting.
@@ -535,7 +535,7 @@ void accept_request(int socket)
 	char buf[1024] = "\0";
 	int numchars;
 	char method[255];
-	char url[255];
+	char url[HTTP_MAX_PATH];
 	size_t i, j;
 	api_request *req = api_request_new(socket);
 
@@ -612,6 +612,15 @@ void accept_request(int socket)
 
 	req->url = strdup(url);
 
+	// Reject URLs that don't fit instead of processing a different one.
+	if (i == sizeof(url) - 1 && buf[j] && !isspace((int)(buf[j])))
+	{
+		bad_request(req);
+		connection_close(req);
+		free(req);
+		return;
+	}
+
 	/* Validate and add connection to live_connections */
 	if (!connection_add(req->socket, req->IP, req->url))
 	{
-- 
2.43.0


From fb86b37e20c646dfc4125e7c52dc2e86a47db7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:00 +0000
Subject: [PATCH 35/67] fix: the rest of an overlong header line was taken for
 another header

---
 ws.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 57e16bc..5a51453 100644
--- a/ws.c
+++ b/ws.c
@@ -702,7 +702,11 @@ void accept_request(int socket)
 			session_from_cookies(req->session, header_value(buf));
 		}
 
-		numchars = get_line(req, buf, sizeof(buf));
+		// Skip what doesn't fit of an overlong line, it is not another header.
+		while (numchars == sizeof(buf) - 1 && buf[numchars - 1] != '\n')
+			numchars = get_line(req, buf, sizeof(buf));
+
+		numchars = numchars > 0 ? get_line(req, buf, sizeof(buf)) : 0;
 	}
 
 	req->n_headers = headers_idx;
-- 
2.43.0


From b624a99cccef38d0fa2d31a9573300fd4b4b3e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:01 +0000
Subject: [PATCH 36/67] fix: crash when there is not enough memory for a
 request body

---
 ws.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ws.c b/ws.c
index 5a51453..4c23e32 100644
--- a/ws.c
+++ b/ws.c
@@ -306,6 +306,12 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 	{
 		char c = '\0';
 		req->form = malloc(content_length + 1);
+		if (req->form == NULL)
+		{
+			req->form = "";
+			internal_server_error(req);
+			return;
+		}
 		long formptr = 0;
 		for (int i = 0; i < content_length; i++)
 		{
-- 
2.43.0


From 37e22095a57d1c5ca7c86c58d9b3747048facd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:34 +0000
Subject: [PATCH 37/67] fix: a failed accept ended the server

A client that leaves before it is accepted, or a passing lack of descriptors or
memory, must not stop the service.
---
 ws.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 4c23e32..ee4e633 100644
--- a/ws.c
+++ b/ws.c
@@ -18,6 +18,7 @@
 #include "ws.h"
 #include <arpa/inet.h>
 #include <ctype.h>
+#include <errno.h>
 #include <pthread.h>
 #include <unistd.h>
 #include <stdlib.h>
@@ -880,7 +881,16 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 
 		client_sock = accept(httpd, (struct sockaddr *)&client_name, &client_name_len);
 		if (client_sock == -1)
-			log_fatal("Error while creating client socket");
+		{
+			// Only a broken server socket is fatal, anything else passes.
+			if (errno == EBADF || errno == EINVAL || errno == ENOTSOCK || errno == EOPNOTSUPP || errno == EFAULT)
+				log_fatal("Error while creating client socket");
+			log_error("Error while creating client socket: %s", strerror(errno));
+			// Out of descriptors or memory: give the connections in progress time to end
+			if (errno == EMFILE || errno == ENFILE || errno == ENOBUFS || errno == ENOMEM)
+				usleep(10000);
+			continue;
+		}
 
 		char *IP = malloc(16);
 		strcpy(IP, inet_ntoa(client_name.sin_addr));
-- 
2.43.0


From e15c0ce93386b9632c9fb819920783062afb1b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:35 +0000
Subject: [PATCH 38/67] fix: SIGPIPE ended programs that use the library when a
 client disconnected

---
 ws.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ws.c b/ws.c
index ee4e633..0baa2ed 100644
--- a/ws.c
+++ b/ws.c
@@ -20,6 +20,7 @@
 #include <ctype.h>
 #include <errno.h>
 #include <pthread.h>
+#include <signal.h>
 #include <unistd.h>
 #include <stdlib.h>
 #include <string.h>
@@ -830,6 +831,9 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 		configure_context(ctx);
 	}
 
+	// A client that disconnects early must not end the process
+	signal(SIGPIPE, SIG_IGN);
+
 	if (handler)
 		socket_handler = handler;
 
-- 
2.43.0


From a6aa77aafec69abb212f774250b72652e4539d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:36 +0000
Subject: [PATCH 39/67] fix: long paths in the limits file overflowed the rule

Also remove white space between the path and the comma: such a rule never applied.
---
 ws.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ws.c b/ws.c
index 0baa2ed..85b280e 100644
--- a/ws.c
+++ b/ws.c
@@ -974,7 +974,11 @@ path_limits *load_limits()
 				/* Tokenize line, comma delimited */
 				char *token;
 				token = strtok(line, ",");
+				/* Ignore paths that don't fit */
+				if (strlen(token) >= HTTP_MAX_PATH)
+					continue;
 				strcpy(out[path_rules].path, token);
+				trim(out[path_rules].path);
 				int i = 1;
 				while (token != NULL)
 				{
-- 
2.43.0


From 34389f2fb2a045e81c84f7336ab416ce13660272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:36 +0000
Subject: [PATCH 40/67] fix: -r did not change the folder of the static files

---
 main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main.c b/main.c
index 5a88d42..aeca016 100644
--- a/main.c
+++ b/main.c
@@ -84,7 +84,12 @@ int main(int argc, char *argv[])
       ws_port = atoi(optarg);
       break;
     case 'r':
+      if (strlen(optarg) >= ROOT_PATH_MAX)
+      {
+        log_fatal("Unable to start, root directory path too long: %s", optarg);
+      }
       strcpy(WAYUU_WS_ROOT, optarg);
+      sprintf(WAYUU_STATIC_ROOT, "%s/%s", WAYUU_WS_ROOT, DEFAULT_STATIC_ROOT);
       log_info("WAYUU ROOT now: %s", WAYUU_WS_ROOT);
       if (!is_dir(WAYUU_WS_ROOT))
       {
-- 
2.43.0


From a4bf41d4f3b0cad0b726f5e580feac00b3dcbf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:37 +0000
Subject: [PATCH 41/67] fix: long -b arguments overflowed a buffer

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index aeca016..7e29b6c 100644
--- a/main.c
+++ b/main.c
@@ -78,7 +78,7 @@ int main(int argc, char *argv[])
       exit(EXIT_SUCCESS);
       break;
     case 'b':
-      strcpy(bind_addr, optarg);
+      snprintf(bind_addr, sizeof(bind_addr), "%s", optarg);
       break;
     case 'p':
       ws_port = atoi(optarg);
-- 
2.43.0


From e00b8e523bfe66f9eb6b48380a097d343ef2d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 42/67] fix: log lines of concurrent threads were mixed

---
 log.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/log.c b/log.c
index 5a8bbdc..d4b21fc 100644
--- a/log.c
+++ b/log.c
@@ -75,13 +75,15 @@ void __logger(int level, const char *file, int line, const char *func, const cha
   char *buf = format_timestamp();
   va_list args;
 
-  // II. Format log
+  // II. Format log. The line is written in pieces: keep those of other threads out.
+  flockfile(LOG_FILE);
   fprintf(LOG_FILE, "%s %lu %-5s %s:%s:%d: ", buf, pthread_self(), level_names[level], file, func, line);
   va_start(args, format);
   vfprintf(LOG_FILE, format, args);
   va_end(args);
   fprintf(LOG_FILE, "\n");
   fflush(LOG_FILE);
+  funlockfile(LOG_FILE);
   free(buf);
 
   // Exit with error if log level is FATAL
-- 
2.43.0


From 4ef5794d67825ec5c7adbaeadd6655df8ea25648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 43/67] fix: time stamps of concurrent log lines shared one
 buffer

---
 log.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/log.c b/log.c
index d4b21fc..34f169b 100644
--- a/log.c
+++ b/log.c
@@ -42,8 +42,9 @@ char *format_timestamp()
   // Always use UTC time
   char *out = malloc(64);
   time_t t = time(NULL);
-  struct tm *utc = gmtime(&t);
-  strftime(out, 64, "%d-%m-%y %H:%M:%S", utc);
+  struct tm utc;
+  gmtime_r(&t, &utc);
+  strftime(out, 64, "%d-%m-%y %H:%M:%S", &utc);
   return out;
 }
 
@@ -55,8 +56,9 @@ char *format_ts_common_log()
   //%d/%b/%Y:%H:%M:%S %z
   char *out = malloc(64);
   time_t t = time(NULL);
-  struct tm *utc = gmtime(&t);
-  strftime(out, 64, "%d/%b/%Y:%H:%M:%S %z", utc);
+  struct tm utc;
+  gmtime_r(&t, &utc);
+  strftime(out, 64, "%d/%b/%Y:%H:%M:%S %z", &utc);
   return out;
 }
 
-- 
2.43.0


From b91b71ec0e94a0e932db1cea1c5841a966207bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:39 +0000
Subject: [PATCH 44/67] fix: JSON replies with an unknown status sent a message
 without status line

---
 http_utils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http_utils.c b/http_utils.c
index a16a28a..fa9fedf 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -319,6 +319,8 @@ int return_headers_with_mime(api_request *req, int status, char *mime)
 void return_json_stream(api_request *req, int status, FILE *fp)
 {
 	int len = return_json_headers(req, status);
+	if (len == 0)
+		return;
 	char buf[1024];
 	strcpy(buf, "\r\n");
 	http_print(req, buf, strlen(buf));
@@ -330,6 +332,8 @@ void return_json_stream(api_request *req, int status, FILE *fp)
 void return_json_with_status(api_request *req, int status, char *data)
 {
 	int len = return_json_headers(req, status);
+	if (len == 0)
+		return;
 
 	char buf[1024];
 	sprintf(buf, "Content-Length: %zu\r\n\r\n", strlen(data) + 2);
-- 
2.43.0


From d4d3fa06197a92b854b6f6308c0f724d8a749530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:40 +0000
Subject: [PATCH 45/67] fix: send_stream lost the bytes between a NUL and the
 end of its line

---
 http_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index fa9fedf..26948e7 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -219,9 +219,9 @@ int send_stream(api_request *req, FILE *fp)
 {
 	char buf[1024];
 	int len = 0;
-	while (fgets(buf, sizeof(buf) - 1, fp) != NULL)
+	int s;
+	while ((s = fread(buf, 1, sizeof(buf), fp)) > 0)
 	{
-		int s = strlen(buf);
 		len += s;
 		http_print(req, buf,s);
 	}
-- 
2.43.0


From 51cd9eca5e7ba9bcae3c001b20237f54b65ce033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:40 +0000
Subject: [PATCH 46/67] fix: long messages overflowed a buffer of
 send_http_status

---
 http_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http_utils.c b/http_utils.c
index 26948e7..a1d7e38 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -422,7 +422,7 @@ void send_http_status(api_request *req, int status, char *message)
 		return;
 	}
 
-	char buf[1024];
+	char buf[strlen(message) + 1024];
 
 	strcpy(buf, HTTP_ERROR_STARTS[error_index]);
 	strcat(buf, WAYUU_HTTP_SERVER_STRING);
-- 
2.43.0


From cea47b3148631ae98bae73e3c7d46462283d2a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:41 +0000
Subject: [PATCH 47/67] fix: header names are not case sensitive

Filters, handlers and the access log missed headers a client sends in lower case.
---
 http_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http_utils.c b/http_utils.c
index a1d7e38..c93fc4d 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -523,7 +523,7 @@ char *http_get_header(api_request *req, char *name)
 {
 	for (int i = 0; i < req->n_headers; i++)
 	{
-		if (!strcmp(req->headers[i].name, name))
+		if (!strcasecmp(req->headers[i].name, name))
 		{
 			return strdup(req->headers[i].value);
 		}
-- 
2.43.0


From 3d9569311f232bcb4f9a42568b6e05518e2d1f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:21 +0000
Subject: [PATCH 48/67] fix: requests were never freed

Every request leaked its URL, headers and body, so that clients could use up
the memory of the server.
---
 ws.c | 59 +++++++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/ws.c b/ws.c
index 85b280e..de9de9e 100644
--- a/ws.c
+++ b/ws.c
@@ -166,6 +166,9 @@ void configure_context(SSL_CTX *ctx)
 	}
 }
 
+/* Initial value of the fields of a request, never freed */
+static char EMPTY[] = "";
+
 void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 {
 
@@ -310,7 +313,7 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 		req->form = malloc(content_length + 1);
 		if (req->form == NULL)
 		{
-			req->form = "";
+			req->form = EMPTY;
 			internal_server_error(req);
 			return;
 		}
@@ -334,8 +337,11 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 			req->form = fields;
 		}
 	}
-	// Delegate request to router
+	// Delegate request to router, which replaces an empty form
+	char *empty_form = req->form != EMPTY && *req->form == 0 ? req->form : NULL;
 	router_handle_request(req);
+	if (empty_form != req->form)
+		free(empty_form);
 }
 
 /* Returns true if any of the segments of the path is ".." */
@@ -394,16 +400,36 @@ api_request *api_request_new(int socket)
 	api_request *req = calloc(1, sizeof(api_request));
 	req->request_start = epoch_millis();
 	req->response_length = 0;
-	req->query_string = "";
-	req->form = "";
-	req->session = "";
-	req->path = "";
-	req->username = "";
-	req->url = "";
+	req->query_string = EMPTY;
+	req->form = EMPTY;
+	req->session = EMPTY;
+	req->path = EMPTY;
+	req->username = EMPTY;
+	req->url = EMPTY;
 	req->socket = socket;
 	return req;
 }
 
+/* Frees a field of a request, unless it still is as api_request_new left it */
+static void free_field(char *field)
+{
+	if (field != EMPTY)
+		free(field);
+}
+
+void api_request_free(api_request *req)
+{
+	free_field(req->form);
+	free_field(req->query_string);
+	free_field(req->path);
+	free_field(req->url);
+	free_field(req->request_line);
+	free_field(req->session);
+	free_field(req->IP);
+	free(req->content_type);
+	free(req);
+}
+
 /* Return "total" / "by_ip" ongoing connections "path" and "IP" */
 void get_live_stats(char *path, char *IP, int *total, int *by_ip)
 {
@@ -566,7 +592,7 @@ void accept_request(int socket)
 			log_warn("SSL connection failed from IP: %s\n", req->IP);
 			req->ssl = ssl;
 			connection_close(req);
-			free(req);
+			api_request_free(req);
 			return;
 		}
 		req->ssl = ssl;
@@ -598,7 +624,7 @@ void accept_request(int socket)
 	{
 		bad_request(req);
 		connection_close(req);
-		free(req);
+		api_request_free(req);
 		return;
 	}
 
@@ -625,7 +651,7 @@ void accept_request(int socket)
 	{
 		bad_request(req);
 		connection_close(req);
-		free(req);
+		api_request_free(req);
 		return;
 	}
 
@@ -634,7 +660,7 @@ void accept_request(int socket)
 	{
 		too_many_connections(req);
 		connection_close(req);
-		free(req);
+		api_request_free(req);
 		return;
 	}
 
@@ -666,6 +692,7 @@ void accept_request(int socket)
 		}
 		if (startswith(buf, "Content-Type:"))
 		{
+			free(req->content_type);
 			req->content_type = rtrim(header_value(buf), ';');
 			trim(req->content_type);
 		}
@@ -724,7 +751,7 @@ void accept_request(int socket)
 	{
 		log_debug("IP:%s Incomplete request headers", req->IP);
 		connection_close(req);
-		free(req);
+		api_request_free(req);
 		return;
 	}
 
@@ -753,13 +780,13 @@ void accept_request(int socket)
 	/* II. HANDLE API REQUEST */
 	else
 	{
-		req->path = strdup(pq->path) + strlen(API_MOUNT);
+		req->path = strdup(pq->path + strlen(API_MOUNT));
 		// Create an api request object.
 		handle_api_request(req, content_length, multipart_boundary);
 	}
 	free_path_and_query_t(pq);
 	connection_close(req);
-	free(req);
+	api_request_free(req);
 }
 
 ws_queue *ws_create_queue(int maxElements)
@@ -896,7 +923,7 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 			continue;
 		}
 
-		char *IP = malloc(16);
+		char IP[HTTP_MAX_IP];
 		strcpy(IP, inet_ntoa(client_name.sin_addr));
 
 		if (!allowed_address(IP))
-- 
2.43.0


From 439e9b73c47fcb693833114efddcce467dabab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:22 +0000
Subject: [PATCH 49/67] fix: configuration lists with more than 20 values
 overflowed the item

Parsing then freed a pointer into the middle of a string.
---
 conf_parser.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index 6279474..188bd78 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -39,7 +39,8 @@ void conf_parse_multi(conf_item *item)
   // We store value string in a separate string because strtok modifies it.
   char *value = strdup(item->value);
   // tmp_value is a register that stores the current value obtained from the tokenizer.
-  char *tmp_value = strtok(value, MULTI_DELIM);
+  char *rest = NULL;
+  char *tmp_value = strtok_r(value, MULTI_DELIM, &rest);
   if (tmp_value && strcmp("", tmp_value))
   {
     item->multivalue[0] = strdup(tmp_value);
@@ -47,8 +48,8 @@ void conf_parse_multi(conf_item *item)
     while (tmp_value != NULL && i < _CONF_MAX_MULTI_ELEMENTS)
     {
       i++;
-      tmp_value = strtok(NULL, MULTI_DELIM);
-      if (tmp_value != NULL)
+      tmp_value = strtok_r(NULL, MULTI_DELIM, &rest);
+      if (tmp_value != NULL && i < _CONF_MAX_MULTI_ELEMENTS)
       {
         item->multivalue[i] = strdup(tmp_value);
         trim(item->multivalue[i]);
@@ -56,7 +57,6 @@ void conf_parse_multi(conf_item *item)
     }
   }
   item->n_multivalues = i;
-  free(tmp_value);
   free(value);
 }
 
-- 
2.43.0


From c38578cc882dadbdf122556aa4dd03509dfa14b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:22 +0000
Subject: [PATCH 50/67] fix: configuration values were cut at a second '=', a
 line without key crashed

---
 conf_parser.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index 188bd78..7b46ba4 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -78,21 +78,17 @@ conf_item *conf_parse_first_pass(char *line)
   char *line_copy = strdup(line);
   trim(line_copy);
   // Get the key
-  char *key = strtok(line_copy, DELIM);
-  result->key = strdup(key);
+  // The value is everything after the first delimiter
+  char *value = strstr(line_copy, DELIM);
+  *value = 0;
+  value += strlen(DELIM);
+  result->key = strdup(line_copy);
   trim(result->key);
   // store the value
-  char *value = strtok(NULL, DELIM);
-  if (value == NULL)
-  {
-    value = "";
-  }
-
+  trim(value);
   if (strcmp(value, ""))
   {
-    trim(value);
     result->value = strdup(value);
-    trim(result->value);
   }
   else
   {
-- 
2.43.0


From 3eb4645b0a0579ce75fbfbbbc89e2124a2432e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:23 +0000
Subject: [PATCH 51/67] fix: long paths overflowed the error message of the
 configuration parser

---
 conf_parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index 7b46ba4..cde6f46 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -118,7 +118,7 @@ int parse(char *path, conf_handler handler, void *output, key_flags flags)
   if (file == NULL)
   {
     char errorString[120];
-    sprintf(errorString, "Unable to open path: %s", path);
+    snprintf(errorString, sizeof(errorString), "Unable to open path: %s", path);
     perror(errorString);
     return -1;
   }
@@ -129,7 +129,7 @@ int parse(char *path, conf_handler handler, void *output, key_flags flags)
     if (item == NULL)
     {
       char errorString[120];
-      sprintf(errorString, "Entity in invalid format, path: %s\n", path);
+      snprintf(errorString, sizeof(errorString), "Entity in invalid format, path: %s\n", path);
       perror(errorString);
       fclose(file);
       return -1;
@@ -250,7 +250,7 @@ int write_conf(void *input, conf_serializer serializer)
   if (file == NULL)
   {
     char errorString[120];
-    sprintf(errorString, "Unable to open file %s for writing", s->path);
+    snprintf(errorString, sizeof(errorString), "Unable to open file %s for writing", s->path);
     perror(errorString);
     return -1;
   }
-- 
2.43.0


From 7977d45d81c204cdd967d33aaf22fe19e108982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:24 +0000
Subject: [PATCH 52/67] fix: split was not usable by more than one thread

---
 string_utils.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/string_utils.c b/string_utils.c
index 266a929..c6b93ee 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -16,6 +16,7 @@
  * along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
+#define _GNU_SOURCE
 #include <stdint.h>
 #include <openssl/evp.h>
 #include <stdlib.h>
@@ -172,15 +173,16 @@ str_list_t *split(char *str, char *delim)
 {
   char *str_copy = strdup(str);
   int n_tokens = 0;
-  str_list_t *result = malloc(sizeof(result) + (MAX_SPLIT_STR + 1) * MAX_SPLIT_STR_LEN);
-  char *token = strtok(str_copy, delim);
+  str_list_t *result = malloc(sizeof(str_list_t) + (MAX_SPLIT_STR + 1) * MAX_SPLIT_STR_LEN);
+  char *rest = NULL;
+  char *token = strtok_r(str_copy, delim, &rest);
 
   while (token != NULL)
   {
     result->strings[n_tokens] = malloc(MAX_SPLIT_STR_LEN);
     strncpy(result->strings[n_tokens], token, MAX_SPLIT_STR_LEN - 1);
 
-    token = strtok(NULL, delim);
+    token = strtok_r(NULL, delim, &rest);
     n_tokens++;
   }
 
-- 
2.43.0


From 4779cd392415ddc4b5ac9594ff6fdb84f3bacbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:24 +0000
Subject: [PATCH 53/67] fix: long tokens were stored without terminator

---
 string_utils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/string_utils.c b/string_utils.c
index c6b93ee..f35c354 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -179,7 +179,7 @@ str_list_t *split(char *str, char *delim)
 
   while (token != NULL)
   {
-    result->strings[n_tokens] = malloc(MAX_SPLIT_STR_LEN);
+    result->strings[n_tokens] = calloc(MAX_SPLIT_STR_LEN, 1);
     strncpy(result->strings[n_tokens], token, MAX_SPLIT_STR_LEN - 1);
 
     token = strtok_r(NULL, delim, &rest);
@@ -196,7 +196,7 @@ str_list_t *split_once(char *str, char *delim)
 {
 
   str_list_t *result = malloc(sizeof(result) + (2 + 1) * MAX_SPLIT_STR_LEN);
-  result->strings[0] = malloc(MAX_SPLIT_STR_LEN);
+  result->strings[0] = calloc(MAX_SPLIT_STR_LEN, 1);
   char *first = rtrim(str, ':');
   trim(first);
   strncpy(result->strings[0], first, MAX_SPLIT_STR_LEN - 1);
@@ -204,7 +204,7 @@ str_list_t *split_once(char *str, char *delim)
   if (strlen(second) < strlen(str))
   {
     trim(second);
-    result->strings[1] = malloc(MAX_SPLIT_STR_LEN);
+    result->strings[1] = calloc(MAX_SPLIT_STR_LEN, 1);
     strncpy(result->strings[1], second, MAX_SPLIT_STR_LEN - 1);
     result->n_str = 2;
   }
-- 
2.43.0


From fe180eea44e54cb5cc9155db8e90c8037e1c2abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:25 +0000
Subject: [PATCH 54/67] fix: split_once ignored its delimiter and always split
 at ':'

---
 string_utils.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/string_utils.c b/string_utils.c
index f35c354..7edc516 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -197,11 +197,12 @@ str_list_t *split_once(char *str, char *delim)
 
   str_list_t *result = malloc(sizeof(result) + (2 + 1) * MAX_SPLIT_STR_LEN);
   result->strings[0] = calloc(MAX_SPLIT_STR_LEN, 1);
-  char *first = rtrim(str, ':');
+  char *at = strstr(str, delim);
+  char *first = at ? strndup(str, at - str) : strdup(str);
   trim(first);
   strncpy(result->strings[0], first, MAX_SPLIT_STR_LEN - 1);
-  char *second = ltrim(str, ':');
-  if (strlen(second) < strlen(str))
+  char *second = at ? strdup(at + strlen(delim)) : NULL;
+  if (second)
   {
     trim(second);
     result->strings[1] = calloc(MAX_SPLIT_STR_LEN, 1);
-- 
2.43.0


From aaa89d2be33a7ca37df5406115bbae9a6c7d2270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:26 +0000
Subject: [PATCH 55/67] fix: write_file read beyond the end of data without
 terminator

---
 file_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file_utils.c b/file_utils.c
index 397aeac..d651e7f 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -117,7 +117,7 @@ void read_file(char *out, char *path, uint64_t maxlen)
 
 void write_file(char *filename, char *ptr, int size)
 {
-  log_debug("write_file(filename=%s, strlen(ptr)=%d, size=%d)", filename, strlen(ptr), size);
+  log_debug("write_file(filename=%s, size=%d)", filename, size);
   if (is_file(filename))
   {
     remove(filename);
-- 
2.43.0


From 5c1ce3b953491cee6e5d69dba9b1dc4ec3b4eb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:38 +0000
Subject: [PATCH 56/67] fix: JSON strings were not escaped

Quotes, backslashes and control characters made the documents invalid. NULL
strings crashed the builders.
---
 json_utils.c | 60 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/json_utils.c b/json_utils.c
index ac3bed7..017bbed 100644
--- a/json_utils.c
+++ b/json_utils.c
@@ -30,6 +30,28 @@
 #define MAX_SINGLE_JSON_ENTITY_STR_LEN 512
 #define MAX_INT_STRING_LEN 32
 
+/* Returns the string escaped for use between quotes in JSON, dynamically allocated */
+static char *json_escape(const char *str)
+{
+  char *out = malloc(strlen(str) * 6 + 1);
+  char *p = out;
+  for (; *str; str++)
+  {
+    unsigned char c = *str;
+    if (c == '"' || c == '\\')
+    {
+      *p++ = '\\';
+      *p++ = c;
+    }
+    else if (c < ' ')
+      p += sprintf(p, "\\u%04x", c);
+    else
+      *p++ = c;
+  }
+  *p = 0;
+  return out;
+}
+
 char *json_array_of_strings(char **array, int size)
 {
   if (array == NULL || size < 1)
@@ -38,18 +60,24 @@ char *json_array_of_strings(char **array, int size)
   }
   // calculate size of string
   int string_size = strlen(JSON_ARRAY_STR_BEGIN) + strlen(JSON_ARRAY_STR_END) + size * strlen(JSON_ARRAY_STR_SEP) + 2;
+  char **escaped = calloc(size, sizeof(char *));
   for (int i = 0; i < size; i++)
   {
-    if (array[i] != NULL)
-      string_size += strlen(array[i]);
+    escaped[i] = json_escape(array[i] != NULL ? array[i] : "");
+    string_size += strlen(escaped[i]);
   }
 
   char *json = calloc(string_size, sizeof(char));
   strcpy(json, JSON_ARRAY_STR_BEGIN);
-  char *joined_str = join(array, size, JSON_ARRAY_STR_SEP);
+  char *joined_str = join(escaped, size, JSON_ARRAY_STR_SEP);
   strcat(json, joined_str);
   strcat(json, JSON_ARRAY_STR_END);
   free(joined_str);
+  for (int i = 0; i < size; i++)
+  {
+    free(escaped[i]);
+  }
+  free(escaped);
   return json;
 }
 
@@ -87,29 +115,39 @@ char *json_array_of_entities(json_list_t list)
 
 char *json_key_value(char *key, char *value)
 {
-  char *json = calloc(1, strlen(key) + strlen(value) + 15);
-  sprintf(json, "\"%s\":\"%s\"", key, value? value : "");
+  char *key_json = json_escape(key);
+  char *value_json = json_escape(value ? value : "");
+  char *json = calloc(1, strlen(key_json) + strlen(value_json) + 15);
+  sprintf(json, "\"%s\":\"%s\"", key_json, value_json);
+  free(key_json);
+  free(value_json);
   return json;
 }
 
 char *json_key_value_int(char *key, int value)
 {
-  char *json = calloc(1, strlen(key) + MAX_INT_STR + 15);
-  sprintf(json, "\"%s\":%d", key, value);
+  char *key_json = json_escape(key);
+  char *json = calloc(1, strlen(key_json) + MAX_INT_STR + 15);
+  sprintf(json, "\"%s\":%d", key_json, value);
+  free(key_json);
   return json;
 }
 
 char *json_key_value_bool(char *key, bool value)
 {
-  char *json = calloc(1, strlen(key) + MAX_INT_STR + 15);
-  sprintf(json, "\"%s\":%s", key, value ? "true": "false");
+  char *key_json = json_escape(key);
+  char *json = calloc(1, strlen(key_json) + MAX_INT_STR + 15);
+  sprintf(json, "\"%s\":%s", key_json, value ? "true": "false");
+  free(key_json);
   return json;
 }
 
 char *json_key_value_uint32_t(char *key, uint32_t value)
 {
-  char *json = calloc(1, strlen(key) + MAX_INT_STR + 15);
-  sprintf(json, "\"%s\":%u", key, value);
+  char *key_json = json_escape(key);
+  char *json = calloc(1, strlen(key_json) + MAX_INT_STR + 15);
+  sprintf(json, "\"%s\":%u", key_json, value);
+  free(key_json);
   return json;
 }
 
-- 
2.43.0


From 8979f28ad527169168ea8031c79b45878d700eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:39 +0000
Subject: [PATCH 57/67] fix: return_response freed uninitialised pointers when
 a text was empty

---
 http_utils.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index c93fc4d..00f8851 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -534,10 +534,10 @@ char *http_get_header(api_request *req, char *name)
 char *return_response(call_response_t rsp)
 {
 	char *aux;
-	char *aux_err;
-	char *aux_txt;
-	char *aux_additional_info;
-	char *aux_description;
+	char *aux_err = NULL;
+	char *aux_txt = NULL;
+	char *aux_additional_info = NULL;
+	char *aux_description = NULL;
 
 	if (rsp.status == -1)
 		asprintf(&aux_err, "\"RSP\":\"FAIL\"");
-- 
2.43.0


From fc1f9e01a746f209c53e3e94248804746345afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:40 +0000
Subject: [PATCH 58/67] fix: return_response did not escape its texts

---
 http_utils.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 00f8851..a9c30e6 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -548,9 +548,17 @@ char *return_response(call_response_t rsp)
 	if (rsp.status == 2)
 		asprintf(&aux_err, "\"RSP\":\"WARNING\"");
 	if (strlen(rsp.text))
-		asprintf(&aux_txt, ", \"info\":\"%s\"", rsp.text);
+	{
+		char *info = json_key_value("info", rsp.text);
+		asprintf(&aux_txt, ", %s", info);
+		free(info);
+	}
 	if (strlen(rsp.description))
-		asprintf(&aux_description, ", \"description\":\"%s\"", rsp.description);
+	{
+		char *description = json_key_value("description", rsp.description);
+		asprintf(&aux_description, ", %s", description);
+		free(description);
+	}
 
 	if (rsp.additional_info != NULL)
 		asprintf(&aux_additional_info, ",\"data\":%s", rsp.additional_info);
-- 
2.43.0


From 30e00a5535a179f78a929ab0c63c4d4c49cdae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:40 +0000
Subject: [PATCH 59/67] fix: return_headers_with_mime leaked the content type

---
 http_utils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/http_utils.c b/http_utils.c
index a9c30e6..e56d40f 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -311,7 +311,9 @@ int return_headers_with_mime(api_request *req, int status, char *mime)
 	}
 	char buf[1024];
 
-	sprintf(buf, "%s%s%s%s", HTTP_ERROR_STARTS[error_index], WAYUU_HTTP_SERVER_STRING, HTTP_ACCESS_CONTROL, get_content_type_for_mime(mime));
+	char *content_type = get_content_type_for_mime(mime);
+	sprintf(buf, "%s%s%s%s", HTTP_ERROR_STARTS[error_index], WAYUU_HTTP_SERVER_STRING, HTTP_ACCESS_CONTROL, content_type);
+	free(content_type);
 	http_print(req, buf, strlen(buf));
 	return strlen(buf);
 }
-- 
2.43.0


From 7913056b36471d9ec700b20645e093f4fd075bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:43 +0000
Subject: [PATCH 60/67] fix: size the path parameter buffer by the parameter
 name

---
 router.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.c b/router.c
index 8c6945c..9e0a814 100644
--- a/router.c
+++ b/router.c
@@ -83,7 +83,7 @@ char *router_extract_param(const char *path, route_matcher *matcher)
   log_debug("router_extract_param(path=%s,prefix=%s,param=%s)", path, matcher->prefix, matcher->param);
   char *tmp = strdup(path);
   int prefix_len = strlen(matcher->prefix);
-  char *qs = calloc(1, strlen(tmp) + prefix_len + 10);
+  char *qs = calloc(1, strlen(tmp) + strlen(matcher->param) + 10);
   sprintf(qs, "%s=%s", matcher->param, tmp + prefix_len);
   free(tmp);
   return qs;
-- 
2.43.0


From 46413002e282509c56049ec49de01107c59cab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:03 +0000
Subject: [PATCH 61/67] fix: conf_parse_line crashed on a line without '=' when
 asked for a list

---
 conf_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conf_parser.c b/conf_parser.c
index cde6f46..471ad85 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -105,7 +105,7 @@ conf_item *conf_parse_first_pass(char *line)
 conf_item *conf_parse_line(char *line, bool is_multi)
 {
   conf_item *result = conf_parse_first_pass(line);
-  if (is_multi)
+  if (result && is_multi)
   {
     conf_parse_multi(result);
   }
-- 
2.43.0


From 1b6519e57061056220b63bdb1102b3805c3d8bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:41 +0000
Subject: [PATCH 62/67] fix: the help text named another default address than
 the one the server binds to

---
 README.md | 2 +-
 main.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 8651e19..ad4d327 100644
--- a/README.md
+++ b/README.md
@@ -17,7 +17,7 @@ $ ./wayuu -h
 USAGE: wayuu [-d] [-b ip_addr] [-p port] [-r root] [-f]
 Options:
 -d         : Enabled DEBUG mode
--b ip_addr : Bind to IP address. Default: "0.0.0.0"
+-b ip_addr : Bind to IP address. Default: "127.0.0.1"
 -p port    : Bind to TCP port. Default: 4443
 -r root    : Use root as the root folder for WAYUU. Default: /etc/wayuu
 -f         : HTTP mode
diff --git a/main.c b/main.c
index 7e29b6c..9f84220 100644
--- a/main.c
+++ b/main.c
@@ -35,7 +35,7 @@ void print_usage()
   printf("USAGE: wayuu [-d] [-b ip_addr] [-p port] [-r root] [-f] [-v]\n");
   printf("Options:\n");
   printf("-d         : Enabled DEBUG mode\n");
-  printf("-b ip_addr : Bind to IP address. Default: \"0.0.0.0\"\n");
+  printf("-b ip_addr : Bind to IP address. Default: \"" DEFAULT_BIND_ADDRESS "\"\n");
   printf("-p port    : Bind to TCP port. Default: 4443\n");
   printf("-r root    : Use root as the root folder for WAYUU. Default: /etc/wayuu\n");
   printf("-f         : HTTP mode\n");
-- 
2.43.0


From 213105c7885c0cf237fe0dc07e89430e879924ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:42 +0000
Subject: [PATCH 63/67] fix: md5sum told snprintf it had more room than it has,
 which ends hardened builds

---
 string_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string_utils.c b/string_utils.c
index 7edc516..3d5d6da 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -124,7 +124,7 @@ void md5sum(char *out, char *data, int len)
   EVP_MD_CTX_free(mdctx);
   
   for (i = 0; i < EVP_MD_size(md); ++i)
-    snprintf(&(md5[i * 2]), EVP_MAX_MD_SIZE * 2 + 1, "%02x", (unsigned int)digest[i]);
+    snprintf(&(md5[i * 2]), 3, "%02x", (unsigned int)digest[i]);
   
   // An MD5 digest has 32 hexadecimal digits; callers provide room for those only.
   strcpy(out, md5);
-- 
2.43.0


From 529d95316e18b2e4c4ef81907d8e8c17a0b49594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:57 +0000
Subject: [PATCH 64/67] fix: nobody is allowed while the deny list can't be
 read

---
 file_utils.c | 10 ++++++++--
 file_utils.h |  1 +
 ws.c         |  3 ++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/file_utils.c b/file_utils.c
index d651e7f..87e3a50 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -25,11 +25,17 @@
 #include "string_utils.h"
 
 bool find_in_file(char *path, char *needle)
+{
+  return search_in_file(path, needle) == 1;
+}
+
+/* Returns 1 if needle is a line of the file, 0 if it isn't or there is no such file, -1 if the file can't be read */
+int search_in_file(char *path, char *needle)
 {
 
   if (!is_file(path))
   {
-    return false;
+    return 0;
   }
 
   bool result = false;
@@ -37,7 +43,7 @@ bool find_in_file(char *path, char *needle)
   FILE *file = fopen(path, "r");
   if (file == NULL)
   {
-    return false;
+    return -1;
   }
 
   char *line = NULL;
diff --git a/file_utils.h b/file_utils.h
index d18bd41..bd8d679 100644
--- a/file_utils.h
+++ b/file_utils.h
@@ -23,6 +23,7 @@
 
 bool check_createdir(char *path);
 bool find_in_file(char *path, char *needle);
+int search_in_file(char *path, char *needle);
 bool is_dir(char *path);
 bool is_file(char *path);
 void read_file(char *out, char *path, uint64_t maxlen);
diff --git a/ws.c b/ws.c
index de9de9e..99ff6c8 100644
--- a/ws.c
+++ b/ws.c
@@ -79,7 +79,8 @@ bool allowed_address(char *ip)
 		sprintf(WAYUU_WS_DENY, "%s/etc/deny", WAYUU_WS_ROOT);
 	}
 
-	if (find_in_file(WAYUU_WS_DENY, ip))
+	// Nobody is allowed while the deny list can't be read, e.g. when out of descriptors
+	if (search_in_file(WAYUU_WS_DENY, ip) != 0)
 	{
 		return false;
 	}
-- 
2.43.0


From c9b3bf01d459791414a4474492630a6d57b468cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:57 +0000
Subject: [PATCH 65/67] fix: a static file that can't be opened is not answered
 with 200 and nothing

---
 http_utils.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index e56d40f..0480916 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -169,13 +169,12 @@ char *get_content_type_for_mime(char *mime)
 	return buf;
 }
 
-int return_file(api_request *req, char *path)
+static int send_file(api_request *req, FILE *file)
 {
 
 	char *src;
 	long length = 0;
 
-	FILE *file = fopen(path, "rb");
 	if (file)
 	{
 
@@ -196,17 +195,22 @@ int return_file(api_request *req, char *path)
 	return length;
 }
 
-
+int return_file(api_request *req, char *path)
+{
+	return send_file(req, fopen(path, "rb"));
+}
 
 int direct_file(api_request *req, char *filename)
 {
-	if (!is_file(filename))
+	// Open it before the headers are sent: it may be impossible
+	FILE *file = is_file(filename) ? fopen(filename, "rb") : NULL;
+	if (file == NULL)
 	{
 		log_warn("File not found: %s", filename);
 		return -1;
 	}
 	int length = return_headers(req, filename);
-	length += return_file(req, filename);
+	length += send_file(req, file);
 	req->response_length = length;
 	log_access(req, 200);
 	return 0;
-- 
2.43.0


From 32140964234a159c0e9a211b5bf327e1c737ab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:58 +0000
Subject: [PATCH 66/67] fix: the request line was read one byte past its buffer

---
 ws.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ws.c b/ws.c
index 99ff6c8..a4abc74 100644
--- a/ws.c
+++ b/ws.c
@@ -631,12 +631,12 @@ void accept_request(int socket)
 
 // Parse URL
 	i = 0;
-	while (isspace((int)(buf[j])) && (j < sizeof(buf)))
+	while ((j < sizeof(buf)) && isspace((int)(buf[j])))
 	{
 		j++;
 	}
 	// URL
-	while (!isspace((int)(buf[j])) && (i < sizeof(url) - 1) && (j < sizeof(buf)))
+	while ((i < sizeof(url) - 1) && (j < sizeof(buf)) && !isspace((int)(buf[j])))
 	{
 		url[i] = buf[j];
 		i++;
@@ -648,7 +648,7 @@ void accept_request(int socket)
 	req->url = strdup(url);
 
 	// Reject URLs that don't fit instead of processing a different one.
-	if (i == sizeof(url) - 1 && buf[j] && !isspace((int)(buf[j])))
+	if (i == sizeof(url) - 1 && j < sizeof(buf) && buf[j] && !isspace((int)(buf[j])))
 	{
 		bad_request(req);
 		connection_close(req);
-- 
2.43.0


From d715f6b1dc6995207a3b7244522de1c480ae2018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:48 +0000
Subject: [PATCH 67/67] fix: serializable_to_string wrote beyond its buffer of
 1024 bytes

---
 conf_parser.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index 471ad85..93b1c73 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -281,12 +281,20 @@ serializable *new_serializable(char *path, conf_item *items[], int n_items)
 
 char *serializable_to_string(serializable *s)
 {
-  char *result = malloc(1024 * sizeof(char));
+  char *items[s->n_items + 1];
+  size_t size = strlen(s->path) + 40;
+  for (int i = 0; i < s->n_items; i++)
+  {
+    items[i] = conf_item_to_string(s->items[i]);
+    size += strlen(items[i]) + 1;
+  }
+  char *result = malloc(size);
   sprintf(result, "[path=%s,n_items=%d", s->path, s->n_items);
   for (int i = 0; i < s->n_items; i++)
   {
     strcat(result, ",");
-    strcat(result, conf_item_to_string(s->items[i]));
+    strcat(result, items[i]);
+    free(items[i]);
   }
   strcat(result, "]");
   return result;
-- 
2.43.0

