From 2ad2c6a64c412e79ecfcbc87f53bb3ba915e85ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:05 +0000
Subject: [PATCH 01/96] fix: accept clients whose first line arrives in pieces

The first line of a pending client was read with one call; when it had not
arrived completely its first bytes were dropped, uninitialised data was
inspected and further lines already read stayed unprocessed.
---
 libirc/listener.c | 114 +++++++++++++++++++++++++++-------------------
 libirc/listener.h |   4 ++
 2 files changed, 72 insertions(+), 46 deletions(-)

diff --git a/libirc/listener.c b/libirc/listener.c
index 529f536..ab2de00 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -166,7 +166,10 @@ static gboolean handle_client_detect(GIOChannel *ioc, struct pending_client *pc)
 
 	status = g_io_channel_read_chars(ioc, header, 1, &read, &error);
 
-	if (status != G_IO_STATUS_NORMAL && status != G_IO_STATUS_AGAIN) {
+	if (status == G_IO_STATUS_AGAIN)
+		return TRUE;
+
+	if (status != G_IO_STATUS_NORMAL) {
 		if (error != NULL)
 			g_error_free(error);
 		return FALSE;
@@ -176,56 +179,68 @@ static gboolean handle_client_detect(GIOChannel *ioc, struct pending_client *pc)
 		listener_log(LOG_TRACE, pc->listener, "Detected SOCKS.");
 		pc->type = CLIENT_TYPE_SOCKS;
 		pc->socks.state = SOCKS_STATE_NEW;
-		return TRUE;
 	} else {
-		struct irc_line *l = NULL;
-		gchar *raw = NULL, *cvrt = NULL;
-		gchar *complete;
-		GIOStatus status;
-		gboolean ret;
-		gsize in_len;
-
 		pc->type = CLIENT_TYPE_REGULAR;
+		pc->first_char = header[0];
+	}
 
-		g_assert(ioc != NULL);
+	return TRUE;
+}
 
-		status = g_io_channel_read_line(ioc, &raw, &in_len, NULL, &error);
-		if (status != G_IO_STATUS_NORMAL) {
-			g_free(raw);
-			g_error_free(error);
-			return status;
-		}
+/* Read the first line of a regular client, of which the first character has
+ * already been consumed in order to detect the type of the client. */
+static GIOStatus recv_first_line(GIOChannel *ioc, struct pending_client *pc, GError **error, struct irc_line **l)
+{
+	gchar *raw = NULL, *cvrt = NULL;
+	gchar *complete;
+	GIOStatus status;
+	gsize in_len;
 
-		complete = g_malloc(in_len+2);
-		complete[0] = header[0];
-		memcpy(complete+1, raw, in_len);
-		complete[in_len+1] = '\0';
+	*l = NULL;
+
+	if (pc->first_char == '\n') {
+		/* Empty line */
+		pc->first_char = '\0';
+		return G_IO_STATUS_NORMAL;
+	}
+
+	status = g_io_channel_read_line(ioc, &raw, &in_len, NULL, error);
+	if (status != G_IO_STATUS_NORMAL) {
 		g_free(raw);
+		return status;
+	}
+
+	complete = g_malloc(in_len+2);
+	complete[0] = pc->first_char;
+	memcpy(complete+1, raw, in_len);
+	complete[in_len+1] = '\0';
+	g_free(raw);
+	pc->first_char = '\0';
 
-		if (pc->listener->iconv == (GIConv)-1) {
+	if (pc->listener->iconv == (GIConv)-1) {
+		cvrt = complete;
+	} else {
+		cvrt = g_convert_with_iconv(complete, -1, pc->listener->iconv, NULL, NULL, NULL);
+		if (cvrt == NULL) {
 			cvrt = complete;
 		} else {
-			cvrt = g_convert_with_iconv(complete, -1, pc->listener->iconv, NULL, NULL, &error);
-			if (cvrt == NULL) {
-				cvrt = complete;
-				status = G_IO_STATUS_ERROR;
-				if (error != NULL)
-					g_error_free(error);
-			} else {
-				g_free(complete);
-			}
+			g_free(complete);
 		}
+	}
 
-		l = irc_parse_line(cvrt);
+	*l = irc_parse_line(cvrt);
 
-		ret = pc->listener->ops->handle_client_line(pc, l);
+	g_free(cvrt);
 
-		free_line(l);
+	return G_IO_STATUS_NORMAL;
+}
 
-		g_free(cvrt);
+static GIOStatus recv_client_line(GIOChannel *c, struct pending_client *pc, GError **error, struct irc_line **l)
+{
+	if (pc->first_char != '\0')
+		return recv_first_line(c, pc, error, l);
 
-		return ret;
-	}
+	return irc_recv_line(c, pc->listener->iconv, error, l);
 }
 
 static gboolean handle_client_receive(GIOChannel *c, GIOCondition condition, gpointer data)
@@ -235,17 +250,17 @@ static gboolean handle_client_receive(GIOChannel *c, GIOCondition condition, gpo
 	g_assert(c != NULL);
 
 	if (condition & G_IO_IN) {
-		if (pc->type == CLIENT_TYPE_UNKNOWN) {
-			if (!handle_client_detect(c, pc)) {
-				kill_pending_client(pc);
-				return FALSE;
-			}
-		} else if (pc->type == CLIENT_TYPE_REGULAR) {
+		if (pc->type == CLIENT_TYPE_UNKNOWN && !handle_client_detect(c, pc)) {
+			kill_pending_client(pc);
+			return FALSE;
+		}
+
+		if (pc->type == CLIENT_TYPE_REGULAR) {
 			GIOStatus status;
 			GError *error = NULL;
 			struct irc_line *l;
 
-			while ((status = irc_recv_line(c, pc->listener->iconv, &error, &l)) == G_IO_STATUS_NORMAL) {
+			while ((status = recv_client_line(c, pc, &error, &l)) == G_IO_STATUS_NORMAL) {
 				gboolean ret;
 
 				if (l == NULL)
@@ -262,20 +277,27 @@ static gboolean handle_client_receive(GIOChannel *c, GIOCondition condition, gpo
 			}
 
 			if (status != G_IO_STATUS_AGAIN) {
+				free_line(l);
 				kill_pending_client(pc);
 				if (error != NULL)
 					g_error_free(error);
 				return FALSE;
 			}
 		} else if (pc->type == CLIENT_TYPE_SOCKS) {
-			gboolean ret = handle_client_socks_data(c, pc);
+			enum socks_state state;
+			gboolean ret;
+
+			/* The next request may have been read along with this one */
+			do {
+				state = pc->socks.state;
+				ret = handle_client_socks_data(c, pc);
+			} while (ret && pc->socks.state != state);
+
 			if (!ret)
 				kill_pending_client(pc);
 			return ret;
 		} else if (pc->type == CLIENT_TYPE_QUASSEL) {
 			/* TODO: Quassel */
-		} else {
-			g_assert(0);
 		}
 	}
 
diff --git a/libirc/listener.h b/libirc/listener.h
index 3efb6b1..aea5331 100644
--- a/libirc/listener.h
+++ b/libirc/listener.h
@@ -90,6 +90,10 @@ struct pending_client {
 	/** The type of client. */
 	enum client_type type;
 
+	/** First character of the first line of a regular client, if that line
+	 * has not been read completely yet. */
+	char first_char;
+
 	gint watch_id;
 	struct sockaddr *clientname;
 	socklen_t clientname_len;
-- 
2.43.0


From 7f34b5509acf9a3f98eb84c6306d64696d49f05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 02/96] fix: handle SOCKS requests that arrive in pieces or
 have long fields

Requests were parsed with unchecked short reads, so that fragmented ones were
misread using uninitialised data, and lengths above 127 were negative.
---
 libirc/listener.c | 152 +++++++++++++++++++++++++++-------------------
 libirc/listener.h |   2 +
 2 files changed, 93 insertions(+), 61 deletions(-)

diff --git a/libirc/listener.c b/libirc/listener.c
index ab2de00..09bbb00 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -106,6 +106,9 @@ static gboolean kill_pending_client(struct pending_client *pc)
 
 	g_free(pc->clientname);
 
+	if (pc->socks.request != NULL)
+		g_string_free(pc->socks.request, TRUE);
+
 	g_free(pc);
 
 	return TRUE;
@@ -527,6 +530,48 @@ gboolean listener_socks_error(struct pending_client *pc, guint8 err)
 	return listener_socks_reply(pc, err, ATYP_FQDN, 1, (gchar *)&data, 0);
 }
 
+/* Make sure that at least the first len bytes of the current SOCKS request
+ * have been received. Requests are only handled once they are complete.
+ */
+static GIOStatus socks_receive_request(struct pending_client *cl, gsize len)
+{
+	GString *req;
+
+	if (cl->socks.request == NULL)
+		cl->socks.request = g_string_new(NULL);
+	req = cl->socks.request;
+
+	while (req->len < len) {
+		gchar buf[0x100];
+		gsize read = 0;
+		GIOStatus status;
+
+		status = g_io_channel_read_chars(cl->connection, buf,
+										 MIN(len - req->len, sizeof(buf)), &read, NULL);
+		g_string_append_len(req, buf, read);
+
+		if (status != G_IO_STATUS_NORMAL)
+			return status;
+	}
+
+	return G_IO_STATUS_NORMAL;
+}
+
+/* Start with a new SOCKS request */
+static void socks_finish_request(struct pending_client *cl)
+{
+	g_string_truncate(cl->socks.request, 0);
+}
+
+#define SOCKS_NEED(cl, len) \
+	do { \
+		GIOStatus need_status = socks_receive_request(cl, len); \
+		if (need_status != G_IO_STATUS_NORMAL) \
+			return (need_status == G_IO_STATUS_AGAIN); \
+	} while (0)
+
+#define SOCKS_BYTE(cl, i) ((guint8)(cl)->socks.request->str[i])
+
 static gboolean anon_acceptable(struct pending_client *cl)
 {
 	return FALSE; /* Don't allow anonymous connects */
@@ -569,46 +614,33 @@ static gboolean on_socks_pass_accepted(struct pending_client *cl, gboolean accep
 
 static gboolean pass_handle_data(struct pending_client *cl)
 {
-	gchar header[2];
-	gsize read;
-	gboolean accepted;
-	GIOStatus status;
-	gchar uname[0x100], pass[0x100];
+	guint8 ulen, plen;
+	gchar *uname, *pass;
 
-	status = g_io_channel_read_chars(cl->connection, header, 2, &read, NULL);
-	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
-	}
+	SOCKS_NEED(cl, 2);
 
-	if (header[0] != SOCKS_VERSION && header[0] != 0x1) {
+	if (SOCKS_BYTE(cl, 0) != SOCKS_VERSION && SOCKS_BYTE(cl, 0) != 0x1) {
 		listener_log(LOG_WARNING, cl->listener,
 					 "Client suddenly changed socks uname/pwd version to %x",
-					 header[0]);
+					 SOCKS_BYTE(cl, 0));
 	 	return listener_socks_error(cl, REP_GENERAL_FAILURE);
 	}
 
-	status = g_io_channel_read_chars(cl->connection, uname, header[1], &read,
-									 NULL);
-	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
-	}
-
-	uname[(guint8)header[1]] = '\0';
+	ulen = SOCKS_BYTE(cl, 1);
+	SOCKS_NEED(cl, 2 + ulen + 1);
+	plen = SOCKS_BYTE(cl, 2 + ulen);
+	SOCKS_NEED(cl, 2 + ulen + 1 + plen);
 
-	status = g_io_channel_read_chars(cl->connection, header, 1, &read, NULL);
-	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
-	}
+	uname = g_strndup(cl->socks.request->str + 2, ulen);
+	pass = g_strndup(cl->socks.request->str + 2 + ulen + 1, plen);
+	socks_finish_request(cl);
 
-	status = g_io_channel_read_chars(cl->connection, pass, header[0], &read, NULL);
-	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
-	}
+	cl->listener->ops->socks_auth_simple(cl, uname, pass,
+										 on_socks_pass_accepted);
 
-	pass[(guint8)header[0]] = '\0';
+	g_free(uname);
+	g_free(pass);
 
-	accepted = cl->listener->ops->socks_auth_simple(cl, uname, pass,
-													on_socks_pass_accepted);
 	return TRUE;
 }
 
@@ -822,26 +854,21 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 	if (cl->socks.state == SOCKS_STATE_NEW) {
 		int i;
 		gchar header[2];
-		gchar methods[0x100];
+		guint8 nmethods;
 		gsize read;
-		status = g_io_channel_read_chars(ioc, header, 1, &read, NULL);
-		if (status != G_IO_STATUS_NORMAL) {
-			return FALSE;
-		}
+
+		SOCKS_NEED(cl, 1);
+		nmethods = SOCKS_BYTE(cl, 0);
+		SOCKS_NEED(cl, 1 + nmethods);
 
 		/* None by default */
 		cl->socks.method = NULL;
 
-		status = g_io_channel_read_chars(ioc, methods, header[0], &read, NULL);
-		if (status != G_IO_STATUS_NORMAL) {
-			return FALSE;
-		}
-
-		for (i = 0; i < header[0]; i++) {
+		for (i = 0; i < nmethods; i++) {
 			int j;
 			for (j = 0; socks_methods[j].id != -1; j++)
 			{
-				if (socks_methods[j].id == methods[i] &&
+				if (socks_methods[j].id == SOCKS_BYTE(cl, 1 + i) &&
 					socks_methods[j].acceptable != NULL &&
 					socks_methods[j].acceptable(cl)) {
 					cl->socks.method = &socks_methods[j];
@@ -850,6 +877,8 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 			}
 		}
 
+		socks_finish_request(cl);
+
 		header[0] = SOCKS_VERSION;
 		header[1] = cl->socks.method?cl->socks.method->id:SOCKS_METHOD_NOACCEPTABLE;
 
@@ -875,27 +904,21 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 	} else if (cl->socks.state == SOCKS_STATE_AUTH) {
 		return cl->socks.method->handle_data(cl);
 	} else if (cl->socks.state == SOCKS_STATE_NORMAL) {
-		gchar header[4];
-		gsize read;
+		SOCKS_NEED(cl, 4);
 
-		status = g_io_channel_read_chars(ioc, header, 4, &read, NULL);
-		if (status != G_IO_STATUS_NORMAL) {
-			return FALSE;
-		}
-
-		if (header[0] != SOCKS_VERSION) {
-			listener_log(LOG_WARNING, cl->listener, "Client suddenly changed socks version to %x", header[0]);
+		if (SOCKS_BYTE(cl, 0) != SOCKS_VERSION) {
+			listener_log(LOG_WARNING, cl->listener, "Client suddenly changed socks version to %x", SOCKS_BYTE(cl, 0));
 		 	return listener_socks_error(cl, REP_GENERAL_FAILURE);
 		}
 
-		if (header[1] != CMD_CONNECT) {
-			listener_log(LOG_WARNING, cl->listener, "Client used unknown command %x", header[1]);
+		if (SOCKS_BYTE(cl, 1) != CMD_CONNECT) {
+			listener_log(LOG_WARNING, cl->listener, "Client used unknown command %x", SOCKS_BYTE(cl, 1));
 			return listener_socks_error(cl, REP_CMD_NOT_SUPPORTED);
 		}
 
-		/* header[2] is reserved */
+		/* byte 2 is reserved */
 
-		switch (header[3]) {
+		switch (SOCKS_BYTE(cl, 3)) {
 			case ATYP_IPV4:
 				if (cl->listener->ops->socks_connect_ipv4 == NULL)
 					return listener_socks_error(cl, REP_ATYP_NOT_SUPPORTED);
@@ -908,18 +931,25 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 
 			case ATYP_FQDN:
 				{
-					char hostname[0x100];
+					gchar *hostname;
+					guint8 len;
 					guint16 port;
-					status = g_io_channel_read_chars(ioc, header, 1, &read, NULL);
-					status = g_io_channel_read_chars(ioc, hostname, header[0], &read, NULL);
-					hostname[(guint8)header[0]] = '\0';
+					gboolean ret;
 
-					status = g_io_channel_read_chars(ioc, header, 2, &read, NULL);
-					port = ntohs(*(guint16 *)header);
+					SOCKS_NEED(cl, 5);
+					len = SOCKS_BYTE(cl, 4);
+					SOCKS_NEED(cl, 5 + len + 2);
 
 					if (cl->listener->ops->socks_connect_fqdn == NULL)
 						return listener_socks_error(cl, REP_ATYP_NOT_SUPPORTED);
-					return cl->listener->ops->socks_connect_fqdn(cl, hostname, port);
+
+					hostname = g_strndup(cl->socks.request->str + 5, len);
+					port = (SOCKS_BYTE(cl, 5 + len) << 8) | SOCKS_BYTE(cl, 5 + len + 1);
+					socks_finish_request(cl);
+
+					ret = cl->listener->ops->socks_connect_fqdn(cl, hostname, port);
+					g_free(hostname);
+					return ret;
 				}
 			default:
 				return listener_socks_error(cl, REP_ATYP_NOT_SUPPORTED);
diff --git a/libirc/listener.h b/libirc/listener.h
index aea5331..c4867c4 100644
--- a/libirc/listener.h
+++ b/libirc/listener.h
@@ -108,6 +108,8 @@ struct pending_client {
 		struct socks_method *method;
 		enum socks_state state;
 		void *method_data;
+		/** Part of the current request that has been received. */
+		GString *request;
 	} socks;
 
 	/** Private data. */
-- 
2.43.0


From 4367223ea7a698e72e6a6b5310e704ff497c6615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 03/96] fix: don't crash on PASS without password or with SOCKS
 allow rules

---
 src/listener.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/listener.c b/src/listener.c
index 0dd2133..0c2281a 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -60,7 +60,7 @@ static gboolean listener_check_username_password(struct irc_listener *listener,
 		{
 			struct allow_rule *r = gl->data;
 
-			if (r->password == NULL || r->username == NULL)
+			if (r->password == NULL || r->username == NULL || username == NULL)
 				continue;
 
 			if (strcmp(r->username, username))
@@ -200,6 +200,14 @@ static gboolean handle_client_line(struct pending_client *pc, const struct irc_l
 		gboolean authenticated = FALSE;
 		char *actual_password;
 
+		if (l->args[1] == NULL) {
+			irc_sendf(pc->connection, listener->iconv, NULL,
+					  ":%s %d %s PASS :Not enough parameters",
+					  get_my_hostname(), ERR_NEEDMOREPARAMS, "*");
+			g_io_channel_flush(pc->connection, NULL);
+			return TRUE;
+		}
+
 		if (strchr(l->args[1], ':') != NULL) {
 			char *p = strchr(l->args[1], ':');
 			actual_password = g_strndup(l->args[1], p-l->args[1]);
-- 
2.43.0


From 919fc861affb8f7118acf06991f680cfcf30c48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:28 +0000
Subject: [PATCH 04/96] fix: don't use a transport after it was freed from one
 of its callbacks

Callbacks may disconnect and dispose of the transport. Keep it alive until
they have returned, stop reading once it was disconnected, and only process
already buffered data once the owner has finished setting up.

Also don't leak the descriptor when there are lines left to send, keep the
order of lines when the peer is slow and survive lines that can't be
converted.
---
 libirc/transport.c     |  12 ++++
 libirc/transport.h     |   4 ++
 libirc/transport_ioc.c | 144 ++++++++++++++++++++++++++++++-----------
 3 files changed, 122 insertions(+), 38 deletions(-)

diff --git a/libirc/transport.c b/libirc/transport.c
index ea11c25..e97b8d4 100644
--- a/libirc/transport.c
+++ b/libirc/transport.c
@@ -37,8 +37,20 @@ void irc_transport_disconnect(struct irc_transport *transport)
 	transport->callbacks->disconnect(transport);
 }
 
+struct irc_transport *irc_transport_ref(struct irc_transport *transport)
+{
+	transport->references++;
+	return transport;
+}
+
+/* Drop a reference. The transport may be disposed of from within one of its
+ * own callbacks, in which case it is freed once that callback has returned. */
 void free_irc_transport(struct irc_transport *transport)
 {
+	transport->references--;
+	if (transport->references > 0)
+		return;
+
 	transport->backend_ops->free_data(transport->backend_data);
 	transport->backend_data = NULL;
 
diff --git a/libirc/transport.h b/libirc/transport.h
index e365233..d5cef44 100644
--- a/libirc/transport.h
+++ b/libirc/transport.h
@@ -56,12 +56,16 @@ struct irc_transport {
 	const struct irc_transport_callbacks *callbacks;
 	void *userdata;
 	time_t last_line_sent;
+	/** Number of users of this transport: its owner and the callbacks that
+	 * are currently running. */
+	int references;
 };
 
 G_GNUC_WARN_UNUSED_RESULT struct irc_transport *irc_transport_new_iochannel(GIOChannel *iochannel);
 void irc_transport_set_callbacks(struct irc_transport *transport, const struct irc_transport_callbacks *callbacks, void *userdata);
 void irc_transport_disconnect(struct irc_transport *transport);
 void free_irc_transport(struct irc_transport *);
+struct irc_transport *irc_transport_ref(struct irc_transport *);
 G_GNUC_WARN_UNUSED_RESULT gboolean transport_set_charset(struct irc_transport *transport, const char *name);
 gboolean transport_send_line(struct irc_transport *transport, const struct irc_line *, GError **error);
 gboolean transport_send_args(struct irc_transport *transport, GError **error, ...);
diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 76baedd..094dc13 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -32,6 +32,7 @@ struct irc_transport_data_iochannel {
 	gboolean pending_disconnect;
 	gint incoming_id;
 	gint outgoing_id;
+	gint activate_id;
 	GIConv incoming_iconv;
 	GIConv outgoing_iconv;
 	GQueue *pending_lines;
@@ -40,6 +41,12 @@ struct irc_transport_data_iochannel {
 
 static gboolean handle_transport_receive(GIOChannel *c, GIOCondition cond,
 									  void *_transport);
+static gboolean transport_receive(GIOChannel *c, GIOCondition cond,
+								  struct irc_transport *transport);
+
+static void really_disconnect(struct irc_transport_data_iochannel *backend_data);
+
+static gboolean irc_transport_iochannel_is_connected(void *data);
 
 static void free_pending_line(void *_line, void *userdata)
 {
@@ -52,6 +59,10 @@ static void irc_transport_iochannel_free_data(void *data)
 
 	g_assert(backend_data->pending_disconnect);
 
+	/* There may still be lines that could not be sent */
+	if (backend_data->incoming != NULL)
+		really_disconnect(backend_data);
+
 	if (backend_data->outgoing_iconv != (GIConv)-1)
 		g_iconv_close(backend_data->outgoing_iconv);
 	if (backend_data->incoming_iconv != (GIConv)-1)
@@ -129,11 +140,17 @@ static gboolean irc_transport_iochannel_set_charset(struct irc_transport *transp
 
 static void really_disconnect(struct irc_transport_data_iochannel *backend_data)
 {
-	g_io_channel_unref(backend_data->incoming);
-
-	g_source_remove(backend_data->incoming_id);
+	if (backend_data->incoming_id)
+		g_source_remove(backend_data->incoming_id);
+	backend_data->incoming_id = 0;
+	if (backend_data->activate_id)
+		g_source_remove(backend_data->activate_id);
+	backend_data->activate_id = 0;
 	if (backend_data->outgoing_id)
 		g_source_remove(backend_data->outgoing_id);
+	backend_data->outgoing_id = 0;
+
+	g_io_channel_unref(backend_data->incoming);
 
 	backend_data->incoming = NULL;
 }
@@ -210,6 +227,27 @@ static gboolean irc_transport_iochannel_send_line(struct irc_transport *transpor
 
 }
 
+static gboolean handle_buffered_data(gpointer _transport)
+{
+	struct irc_transport *transport = _transport;
+	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
+
+	backend_data->activate_id = 0;
+
+	irc_transport_ref(transport);
+
+	/* Stop listening in case this would have been done for the regular watch */
+	if (!transport_receive(backend_data->incoming, G_IO_IN, transport) &&
+		backend_data->incoming_id != 0) {
+		g_source_remove(backend_data->incoming_id);
+		backend_data->incoming_id = 0;
+	}
+
+	free_irc_transport(transport);
+
+	return FALSE;
+}
+
 static void irc_transport_iochannel_activate(struct irc_transport *transport)
 {
 	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
@@ -217,9 +255,10 @@ static void irc_transport_iochannel_activate(struct irc_transport *transport)
 							backend_data->incoming, G_IO_IN | G_IO_HUP,
 							handle_transport_receive, transport);
 
-	handle_transport_receive(backend_data->incoming,
-			  g_io_channel_get_buffer_condition(backend_data->incoming) & G_IO_IN,
-			  transport);
+	/* Handle data that has been read already once the owner of the transport
+	 * is done setting up. */
+	if (g_io_channel_get_buffer_condition(backend_data->incoming) & G_IO_IN)
+		backend_data->activate_id = g_timeout_add(0, handle_buffered_data, transport);
 }
 
 
@@ -232,8 +271,7 @@ static gboolean handle_recv_status(struct irc_transport *transport, GIOStatus st
 	}
 
 	if (status != G_IO_STATUS_AGAIN) {
-		if (error->domain == G_CONVERT_ERROR &&
-			error->code == G_CONVERT_ERROR_ILLEGAL_SEQUENCE) {
+		if (error != NULL && error->domain == G_CONVERT_ERROR) {
 			transport->callbacks->charset_error(transport,
 												error->message);
 		} else {
@@ -246,52 +284,82 @@ static gboolean handle_recv_status(struct irc_transport *transport, GIOStatus st
 
 
 
-static gboolean handle_transport_receive(GIOChannel *c, GIOCondition cond,
-									  void *_transport)
+static gboolean transport_receive(GIOChannel *c, GIOCondition cond,
+								  struct irc_transport *transport)
 {
-	struct irc_transport *transport = _transport;
 	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
 	struct irc_line *l;
+	gboolean ret = TRUE;
 
 	g_assert(transport);
 
+	g_io_channel_ref(c);
+
 	if (cond & G_IO_ERR) {
 		char *tmp = g_strdup_printf("Error reading from client: %s",
 						  g_io_channel_unix_get_sock_error(c));
 		transport->callbacks->error(transport, tmp);
 		g_free(tmp);
-		return FALSE;
-	}
-
-
-	if (cond & G_IO_IN) {
+		ret = FALSE;
+	} else if (cond & G_IO_IN) {
 		GError *error = NULL;
 		GIOStatus status;
-		gboolean ret = TRUE;
-		
-		while ((status = irc_recv_line(c, backend_data->incoming_iconv, &error,
-									   &l)) == G_IO_STATUS_NORMAL) {
 
-			ret &= transport->callbacks->recv(transport, l);
+		while (ret && irc_transport_iochannel_is_connected(backend_data)) {
+			l = NULL;
+			status = irc_recv_line(c, backend_data->incoming_iconv, &error, &l);
+
+			if (status == G_IO_STATUS_NORMAL) {
+				ret = transport->callbacks->recv(transport, l);
+			} else {
+				ret = handle_recv_status(transport, status, error);
+			}
+
 			free_line(l);
 
-			if (!ret)
-				return FALSE;
+			if (error == NULL && status != G_IO_STATUS_NORMAL)
+				break;
+
+			/* Continue with the next line after one that can not be
+			 * converted. */
+			if (error != NULL) {
+				gboolean is_convert_error = (error->domain == G_CONVERT_ERROR);
+				g_error_free(error);
+				error = NULL;
+				if (!is_convert_error)
+					break;
+			}
 		}
 
-		ret &= handle_recv_status(transport, status, error);
-		if (error != NULL)
-			g_error_free(error);
-		return ret;
-	}
-
-	if (cond & G_IO_HUP) {
+		if (!irc_transport_iochannel_is_connected(backend_data))
+			ret = FALSE;
+	} else if (cond & G_IO_HUP) {
 		transport->callbacks->hangup(transport);
-		return FALSE;
+		ret = FALSE;
 	}
 
+	g_io_channel_unref(c);
 
-	return TRUE;
+	return ret;
+}
+
+static gboolean handle_transport_receive(GIOChannel *c, GIOCondition cond,
+									  void *_transport)
+{
+	struct irc_transport *transport = _transport;
+	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
+	gboolean ret;
+
+	/* The callbacks may disconnect and free the transport */
+	irc_transport_ref(transport);
+
+	ret = transport_receive(c, cond, transport);
+	if (!ret)
+		backend_data->incoming_id = 0;
+
+	free_irc_transport(transport);
+
+	return ret;
 }
 
 
@@ -325,6 +393,7 @@ struct irc_transport *irc_transport_new_iochannel(GIOChannel *iochannel)
 	struct irc_transport *ret = g_new0(struct irc_transport, 1);
 	struct irc_transport_data_iochannel *backend_data = g_new0(struct irc_transport_data_iochannel, 1);
 	
+	ret->references = 1;
 	ret->backend_ops = &irc_transport_iochannel_ops;
 	ret->backend_data = backend_data;
 	backend_data->incoming = iochannel;
@@ -338,16 +407,16 @@ struct irc_transport *irc_transport_new_iochannel(GIOChannel *iochannel)
 static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 									  void *_transport)
 {
-	gboolean ret = FALSE;
 	struct irc_transport *transport = _transport;
 	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
 	GIOStatus status;
 
 	g_assert(ioc == backend_data->incoming);
 
+	/* Nothing else may be written before the data that is in the buffer */
 	status = g_io_channel_flush(backend_data->incoming, NULL);
 	if (status == G_IO_STATUS_AGAIN)
-		ret = TRUE;
+		return TRUE;
 
 	g_assert(backend_data->pending_lines != NULL);
 
@@ -397,11 +466,10 @@ static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 		free_line(l);
 	}
 
-	if (!ret)
-		backend_data->outgoing_id = 0;
+	backend_data->outgoing_id = 0;
 
-	if (!ret && backend_data->pending_disconnect)
+	if (backend_data->pending_disconnect)
 		really_disconnect(backend_data);
 
-	return ret;
+	return FALSE;
 }
-- 
2.43.0


From 4c41b468bfcff5dc8887d16cdfdd6e499fac05c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:21 +0000
Subject: [PATCH 05/96] fix: load channel keys from the keys file

The key was set to the network password on a channel named after the nick,
and a key that is not limited to one network crashed.
---
 src/settings.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 86641bd..118d04e 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -506,18 +506,19 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 	g_free(fn);
 }
 
+static struct channel_config *config_find_add_channel(struct network_config *nc, const char *name);
+
 static void config_load_channel(struct network_config *n, GKeyFile *kf, const char *name)
 {
-	struct channel_config *ch = g_new0(struct channel_config, 1);
+	struct channel_config *ch = config_find_add_channel(n, name);
 
-	ch->name = g_strdup(name);
-	if (g_key_file_has_key(kf, name, "key", NULL))
+	if (g_key_file_has_key(kf, name, "key", NULL)) {
+		g_free(ch->key);
 		ch->key = g_key_file_get_string(kf, name, "key", NULL);
+	}
 
 	if (g_key_file_has_key(kf, name, "autojoin", NULL))
 		ch->autojoin = g_key_file_get_boolean(kf, name, "autojoin", NULL);
-
-	n->channels = g_list_append(n->channels, ch);
 }
 
 static void config_load_servers(struct network_config *n)
@@ -658,11 +659,11 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 	for (gl = channel_keys; gl; gl = gl->next) {
 		struct keyfile_entry *ke = gl->data;
 
-		if (!strcasecmp(ke->network, n->name)) {
-			struct channel_config *cc = config_find_add_channel(n, n->nick);
+		if (ke->network == NULL || !strcasecmp(ke->network, n->name)) {
+			struct channel_config *cc = config_find_add_channel(n, ke->nick);
 
 			g_free(cc->key);
-			cc->key = g_strdup(n->password);
+			cc->key = g_strdup(ke->pass);
 		}
 	}
 
-- 
2.43.0


From e97de5e494f132e406e3c7b2a64203a6b30f5ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:22 +0000
Subject: [PATCH 06/96] fix: don't report time by default, as documented

---
 src/settings.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/settings.c b/src/settings.c
index 118d04e..55b3b79 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1307,6 +1307,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	cfg->replication = g_key_file_get_string(kf, "global", "replication", NULL);
 
+	cfg->report_time = REPORT_TIME_NEVER;
 	if (g_key_file_has_key(kf, "global", "report-time", NULL)) {
 		char *setting = g_key_file_get_string(kf, "global", "report-time", NULL);
 		if (!strcasecmp(setting, "never") || !strcasecmp(setting, "false")) {
-- 
2.43.0


From cd34ca7c173342a8da2a40dad5dce0d8210911e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:31 +0000
Subject: [PATCH 07/96] fix: answer MODE requests with the channel's actual
 modes

Keep track of the parameters of channel modes, report them to clients, and
ask the server for the list of bans if it isn't known yet. The argument of
-k was taken for the argument of the mode after it.
---
 libirc/client.c |  6 +++++-
 libirc/state.c  | 21 ++++++++++++++++++++-
 src/cache.c     |  9 ++++++++-
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 78d2c86..798ee20 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -831,6 +831,9 @@ gboolean client_send_channel_mode(struct irc_client *c, struct irc_channel_state
 	mode = mode2string(ch->modes);
 	gboolean ret;
 
+	if (mode == NULL)
+		mode = g_strdup("+");
+
 	if (mode != NULL) {
 		struct irc_line *l;
 		int i, j = 0;
@@ -842,7 +845,8 @@ gboolean client_send_channel_mode(struct irc_client *c, struct irc_channel_state
 		l->args[2] = g_strdup(ch->name);
 		l->args[3] = mode;
 		for (i = 0; mode[i]; i++) {
-			if (network_chanmode_type(mode[i], c->state->info) == CHANMODE_OPT_SETTING &&
+			enum chanmode_type cmt = network_chanmode_type(mode[i], c->state->info);
+			if ((cmt == CHANMODE_OPT_SETTING || cmt == CHANMODE_SETTING) &&
 				channel_mode_option(ch, mode[i])) {
 				l->args[4+j] = g_strdup(channel_mode_option(ch, mode[i]));
 				j++;
diff --git a/libirc/state.c b/libirc/state.c
index e5088be..296505e 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -939,15 +939,18 @@ static int channel_state_change_mode(struct irc_network_state *s, struct network
 				return -1;
 			}
 
+			modes_set_mode(c->modes, mode);
 			g_free(channel_mode_option(c, mode));
 			channel_mode_option(c, mode) = g_strdup(opt_arg);
 
 			return 1;
 		} else {
+			modes_unset_mode(c->modes, mode);
 			g_free(channel_mode_option(c, mode));
 			channel_mode_option(c, mode) = NULL;
 
-			return 0;
+			/* Settings always have an argument, even when they are unset */
+			return (cmt == CHANMODE_SETTING)?1:0;
 		}
 	} else if (is_prefix_mode(info, mode)) {
 		struct channel_nick *n;
@@ -1108,6 +1111,7 @@ static void handle_umodeis(struct irc_network_state *s, const struct irc_line *l
 static void handle_324(struct irc_network_state *s, const struct irc_line *l)
 {
 	struct irc_channel_state *ch = find_channel(s, l->args[2]);
+	int i, arg = 4;
 
 	if (ch == NULL) {
 		network_state_log(LOG_WARNING, s,
@@ -1120,6 +1124,21 @@ static void handle_324(struct irc_network_state *s, const struct irc_line *l)
 						  "Invalid MODE change %s for channel %s", l->args[3], l->args[2]);
 	}
 
+	for (i = 0; i < MAXMODES; i++) {
+		g_free(ch->chanmode_option[i]);
+		ch->chanmode_option[i] = NULL;
+	}
+
+	for (i = 0; l->args[3][i] && l->args[arg] != NULL; i++) {
+		enum chanmode_type cmt = network_chanmode_type(l->args[3][i], s->info);
+
+		if (cmt == CHANMODE_SETTING || cmt == CHANMODE_OPT_SETTING) {
+			g_free(channel_mode_option(ch, l->args[3][i]));
+			channel_mode_option(ch, l->args[3][i]) = g_strdup(l->args[arg]);
+			arg++;
+		}
+	}
+
 	ch->mode_received = TRUE;
 }
 
diff --git a/src/cache.c b/src/cache.c
index 5c71f1c..01cd381 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -56,7 +56,14 @@ static gboolean client_try_cache_mode(struct irc_client *c,
 
 		for (i = 0; (m = l->args[2][i]); i++) {
 			switch (m) {
-			case 'b': client_send_banlist(c, ch); break;
+			case 'b':
+				/* The list is only known if it was requested before */
+				if (l->args[2][1] != '\0' ||
+				    !channel_mode_nicklist_present(ch, 'b')) {
+					return FALSE;
+				}
+				client_send_banlist(c, ch);
+				break;
 			default: return FALSE;
 			}
 		}
-- 
2.43.0


From 1e9b3e131725926cb4ece12fcf73ab55f01c63aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:57 +0000
Subject: [PATCH 08/96] fix: remember what channels to join and their keys

The key a channel was joined with was forgotten when the connection was lost
and channels that had not been joined yet were not joined again.
---
 src/gen_config.c | 15 +++++++++++----
 src/network.c    | 26 ++++++++++++++++++++++++++
 src/settings.h   |  3 +++
 3 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/gen_config.c b/src/gen_config.c
index 8885ada..49e12c5 100644
--- a/src/gen_config.c
+++ b/src/gen_config.c
@@ -56,7 +56,9 @@ void network_update_config(struct irc_network_state *ns, struct network_config *
 	for (gl = nc->channels; gl; gl = gl->next) {
 		struct channel_config *cc = gl->data;
 
-		cc->autojoin = FALSE;
+		/* Channels that are still being joined are neither left nor joined */
+		if (!cc->joining)
+			cc->autojoin = FALSE;
 	}
 
 	for (gl = ns->channels; gl; gl = gl->next) {
@@ -70,10 +72,15 @@ void network_update_config(struct irc_network_state *ns, struct network_config *
 			cc->name = g_strdup(cs->name);
 			nc->channels = g_list_append(nc->channels, cc);
 		}
-		g_free(cc->key);
-		cc->key = NULL;
-		if (cs->chanmode_option['k'])
+		/* The key that was used for joining remains valid unless the modes
+		 * of the channel say otherwise */
+		if (cs->chanmode_option['k'] != NULL) {
+			g_free(cc->key);
 			cc->key = g_strdup(cs->chanmode_option['k']);
+		} else if (cs->mode_received && !cs->modes['k']) {
+			g_free(cc->key);
+			cc->key = NULL;
+		}
 		cc->autojoin = TRUE;
 	}
 }
diff --git a/src/network.c b/src/network.c
index 3658a1e..49e0b84 100644
--- a/src/network.c
+++ b/src/network.c
@@ -79,6 +79,29 @@ static gboolean network_process_ctcp_request(struct irc_network *n,
 }
 
 
+/* Keep track of what channels are still being joined */
+static void handle_join_response(struct irc_network *n, struct network_config *nc,
+								 const struct irc_line *l, int response)
+{
+	GList *gl;
+	const char *channel;
+
+	if (!base_strcmp(l->args[0], "JOIN") && l->args[1] != NULL)
+		channel = l->args[1];
+	else if (response >= 400 && response < 500 && l->argc > 3)
+		channel = l->args[2];
+	else
+		return;
+
+	for (gl = nc->channels; gl; gl = gl->next) {
+		struct channel_config *c = gl->data;
+
+		if (c->joining && !irccmp(n->external_state->info, c->name, channel) &&
+			(response != 0 || find_channel(n->external_state, channel) != NULL))
+			c->joining = FALSE;
+	}
+}
+
 /**
  * Process a line received from the server
  *
@@ -121,6 +144,8 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 
 	response = irc_line_respcode(l);
 
+	handle_join_response(n, nc, l, response);
+
 	if (!base_strcmp(l->args[0], "PING")){
 		network_send_args(n, "PONG", l->args[1], NULL);
 		return TRUE;
@@ -169,6 +194,7 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 		for (gl = nc->channels; gl; gl = gl->next) {
 			struct channel_config *c = gl->data;
 
+			c->joining = c->autojoin;
 			if (c->autojoin) {
 				network_send_args(n, "JOIN", c->name, c->key, NULL);
 			}
diff --git a/src/settings.h b/src/settings.h
index 94f9313..8fd2456 100644
--- a/src/settings.h
+++ b/src/settings.h
@@ -34,6 +34,9 @@ struct channel_config {
 	char *name;
 	char *key;
 	gboolean autojoin;
+	/** Whether the server still has to respond to the JOIN sent after
+	 * logging in. */
+	gboolean joining;
 };
 
 /**
-- 
2.43.0


From 35f8aca73a5db26aae6697b1693d263de177b6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:58 +0000
Subject: [PATCH 09/96] fix: only log in once when a client requests the MOTD

---
 src/network.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index 49e0b84..24088e2 100644
--- a/src/network.c
+++ b/src/network.c
@@ -161,7 +161,8 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 					l->args[2], tmp);
 		network_nick_set_nick(&n->external_state->me, tmp);
 		g_free(tmp);
-	} else if (response == RPL_ENDOFMOTD || response == ERR_NOMOTD) {
+	} else if ((response == RPL_ENDOFMOTD || response == ERR_NOMOTD) &&
+			   n->connection.state == NETWORK_CONNECTION_STATE_LOGIN_SENT) {
 		int i;
 		GList *gl;
 		n->connection.state = NETWORK_CONNECTION_STATE_MOTD_RECVD;
-- 
2.43.0


From d1f8bb952bc367b9eabd0ab236ce120270d943c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:48 +0000
Subject: [PATCH 10/96] fix: don't lose configuration when it can't be written
 completely

Write new versions of configuration files to a temporary file first.
---
 src/keyfile.c  | 100 ++++++++++++++++++++++++++++++++++++-------------
 src/keyfile.h  |   2 +
 src/settings.c |  28 +++++++-------
 3 files changed, 90 insertions(+), 40 deletions(-)

diff --git a/src/keyfile.c b/src/keyfile.c
index 22a67e3..3e44a0a 100644
--- a/src/keyfile.c
+++ b/src/keyfile.c
@@ -84,41 +84,89 @@ gboolean keyfile_read_file(const char *filename, char commentchar, GList **nicks
 	return TRUE;
 }
 
-gboolean keyfile_write_file(GList *nicks, const char *header,
-							const char *filename)
+/**
+ * Replace the contents of a file. The old contents remain in place if the new
+ * contents can not be written completely.
+ */
+gboolean replace_file_contents(const char *filename, const char *data,
+							   gsize length, GError **error)
 {
-	GList *gl;
-	int fd;
+	char *dir = g_path_get_dirname(filename);
+	char *base = g_path_get_basename(filename);
+	char *newname = g_strdup_printf("%s/.%s.new", dir, base);
+	struct stat st;
+	mode_t mode = 0600;
+	int fd, saved_errno;
+
+	g_free(dir);
+	g_free(base);
+
+	if (stat(filename, &st) == 0)
+		mode = st.st_mode & 0777;
+
+	fd = open(newname, O_WRONLY | O_CREAT | O_TRUNC, mode);
+	if (fd == -1)
+		goto error;
+
+	while (length > 0) {
+		ssize_t ret = write(fd, data, length);
+		if (ret < 0 && errno == EINTR)
+			continue;
+		if (ret < 0)
+			goto error_close;
+		data += ret;
+		length -= ret;
+	}
 
-	fd = open(filename, O_WRONLY | O_CREAT, 0600);
+	if (fsync(fd) < 0)
+		goto error_close;
 
-	if (fd == -1) {
-		log_global(LOG_WARNING, "Unable to write nickserv file `%s': %s", filename, strerror(errno));
-		return FALSE;
-	}
+	if (close(fd) < 0)
+		goto error_unlink;
 
-	if (write(fd, header, strlen(header)) < 0) {
-		log_global(LOG_WARNING, "error writing file header: %s", strerror(errno));
-		close(fd);
-		return FALSE;
-	}
+	if (rename(newname, filename) < 0)
+		goto error_unlink;
+
+	g_free(newname);
+
+	return TRUE;
+
+error_close:
+	saved_errno = errno;
+	close(fd);
+	errno = saved_errno;
+error_unlink:
+	saved_errno = errno;
+	unlink(newname);
+	errno = saved_errno;
+error:
+	g_set_error(error, G_FILE_ERROR, g_file_error_from_errno(errno),
+				"Unable to write `%s': %s", filename, strerror(errno));
+	g_free(newname);
+	return FALSE;
+}
+
+gboolean keyfile_write_file(GList *nicks, const char *header,
+							const char *filename)
+{
+	GList *gl;
+	GString *data = g_string_new(header);
+	GError *error = NULL;
+	gboolean ret;
 
 	for (gl = nicks; gl; gl = gl->next) {
 		struct keyfile_entry *n = gl->data;
-		char *line;
-
-		line = g_strdup_printf("%s\t%s\t%s\n", n->nick, n->pass, n->network?n->network:"*");
-		if (write(fd, line, strlen(line)) < 0) {
-			log_global(LOG_WARNING, "error writing line `%s': %s", line, strerror(errno));
-			g_free(line);
-			close(fd);
-			return FALSE;
-		}
 
-		g_free(line);
+		g_string_append_printf(data, "%s\t%s\t%s\n", n->nick, n->pass, n->network?n->network:"*");
 	}
 
-	close(fd);
+	ret = replace_file_contents(filename, data->str, data->len, &error);
+	if (!ret) {
+		log_global(LOG_WARNING, "Unable to write nickserv file: %s", error->message);
+		g_error_free(error);
+	}
 
-	return TRUE;
+	g_string_free(data, TRUE);
+
+	return ret;
 }
diff --git a/src/keyfile.h b/src/keyfile.h
index b7c3642..422e1cb 100644
--- a/src/keyfile.h
+++ b/src/keyfile.h
@@ -37,5 +37,7 @@ struct keyfile_entry {
 gboolean keyfile_read_file(const char *filename, char commentchar, GList **nicks);
 gboolean keyfile_write_file(GList *entries, const char *header,
 							const char *filename);
+gboolean replace_file_contents(const char *filename, const char *data,
+							   gsize length, GError **error);
 
 #endif /* __CTRLPROXY_KEYFILE_H__ */
diff --git a/src/settings.c b/src/settings.c
index 55b3b79..679efe6 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -124,26 +124,18 @@ void config_register_known_key(char *name)
 
 gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *file, GError **error)
 {
-	gsize length, nr;
+	gsize length;
 	char *data = g_key_file_to_data(kf, &length, error);
-	GIOChannel *gio;
+	gboolean ret;
 
 	if (!data)
 		return FALSE;
 
-	gio = g_io_channel_new_file(file, "w+", error);
-	if (!gio) {
-		g_free(data);
-		return FALSE;
-	}
-
-	g_io_channel_write_chars(gio, data, length, &nr, error);
+	ret = replace_file_contents(file, data, length, error);
 
 	g_free(data);
 
-	g_io_channel_unref(gio);
-
-	return TRUE;
+	return ret;
 }
 
 static void config_save_tcp_servers(struct network_config *n, GKeyFile *kf, const char *groupname)
@@ -266,7 +258,11 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 	g_free(autojoin_list);
 
 	if (n->filename != NULL) {
-		g_key_file_save_to_file(kf, n->filename, NULL);
+		GError *error = NULL;
+		if (!g_key_file_save_to_file(kf, n->filename, &error)) {
+			log_global(LOG_WARNING, "Unable to save network: %s", error->message);
+			g_error_free(error);
+		}
 	}
 }
 
@@ -400,6 +396,7 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 	char *fn, **list;
 	int i;
 	GList *gl;
+	GError *error = NULL;
 
 	if (!g_file_test(configuration_dir, G_FILE_TEST_IS_DIR)) {
 		if (g_mkdir(configuration_dir, 0700) != 0) {
@@ -502,7 +499,10 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 	g_free(list);
 
 	fn = g_build_filename(configuration_dir, "config", NULL);
-	g_key_file_save_to_file(cfg->keyfile, fn, NULL);
+	if (!g_key_file_save_to_file(cfg->keyfile, fn, &error)) {
+		log_global(LOG_WARNING, "Unable to save configuration: %s", error->message);
+		g_error_free(error);
+	}
 	g_free(fn);
 }
 
-- 
2.43.0


From 89f924818af56897689d5fcb5c8d6094d0796763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:01 +0000
Subject: [PATCH 11/96] fix: save all of the configuration

The users allowed by the SOCKS listener, the last network that was no longer
connected to automatically, the last channel key that was removed and custom
log formats were not saved properly.
---
 src/settings.c | 49 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 679efe6..03e04b5 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -266,6 +266,29 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 	}
 }
 
+/* Listener that only accepts the users that are listed */
+static void config_save_listener_socks(struct ctrlproxy_config *cfg, struct listener_config *l)
+{
+	GList *gl;
+	int i = 0;
+	char **allows = g_new0(char *, g_list_length(l->allow_rules)+1);
+
+	for (gl = l->allow_rules; gl; gl = gl->next) {
+		struct allow_rule *r = gl->data;
+
+		if (r->password != NULL)
+			allows[i] = g_strdup_printf("%s:%s", r->username, r->password);
+		else
+			allows[i] = g_strdup(r->username);
+		i++;
+	}
+
+	g_key_file_set_string(cfg->keyfile, "socks", "port", l->port);
+	g_key_file_set_string_list(cfg->keyfile, "socks", "allow", (const gchar **)allows, i);
+
+	g_strfreev(allows);
+}
+
 static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path)
 {
 	GList *gl;
@@ -289,7 +312,9 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 	for (gl = cfg->listeners; gl; gl = gl->next) {
 		struct listener_config *l = gl->data;
 
-		if (l->is_default) {
+		if (l->allow_rules != NULL) {
+			config_save_listener_socks(cfg, l);
+		} else if (l->is_default) {
 			g_key_file_set_string(cfg->keyfile, "global", "port", l->port);
 			if (l->address != NULL)
 				g_key_file_set_string(cfg->keyfile, "global", "bind", l->address);
@@ -374,12 +399,13 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 		keyfile_write_file(channel_keys, CHANNEL_KEY_FILE_HEADER, filename);
 		g_free(filename);
 
-		while (channel_keys) {
-			g_free(channel_keys->data);
-			channel_keys = channel_keys->next;
-		}
-
+		g_list_foreach(channel_keys, (GFunc)g_free, NULL);
 		g_list_free(channel_keys);
+	} else {
+		char *filename = g_build_filename(cfg->config_dir, "keys",
+									  NULL);
+		unlink(filename);
+		g_free(filename);
 	}
 
 	g_free(networksdir);
@@ -495,6 +521,8 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 
 	if (i > 0)
 		g_key_file_set_string_list(cfg->keyfile, "global", "autoconnect", (const gchar **)list, i);
+	else
+		g_key_file_remove_key(cfg->keyfile, "global", "autoconnect", NULL);
 
 	g_free(list);
 
@@ -774,8 +802,6 @@ static struct network_config *find_create_network_config(struct ctrlproxy_config
 	}
 	nc->type_settings.tcp.servers = g_list_append(nc->type_settings.tcp.servers, tc);
 
-	cfg->networks = g_list_append(cfg->networks, nc);
-
 	return nc;
 }
 
@@ -1041,7 +1067,11 @@ static void config_load_networks(struct ctrlproxy_config *cfg, GList *channel_ke
 }
 
 #define FETCH_SETTING(data, kf, section, prefix, name) (data)->name = g_key_file_get_string((kf), (section), prefix #name, NULL)
-#define STORE_SETTING(data, kf, section, prefix, name) g_key_file_set_string((kf), (section), prefix #name, (data)->name)
+#define STORE_SETTING(data, kf, section, prefix, name) \
+	do { \
+		if ((data)->name != NULL) \
+			g_key_file_set_string((kf), (section), prefix #name, (data)->name); \
+	} while (0)
 
 static void config_save_log(struct log_file_config *data,
 							struct ctrlproxy_config *config)
@@ -1061,6 +1091,7 @@ static void config_save_log(struct log_file_config *data,
 			g_key_file_set_string(config->keyfile, "global", "logfile", data->logfilename);
 		}
 	} else {
+		g_key_file_set_string(config->keyfile, "global", "logging", "custom");
 		STORE_SETTING(data, config->keyfile, "global", "", logfilename);
 		STORE_SETTING(data, config->keyfile, "global", "log-format-", nickchange);
 		STORE_SETTING(data, config->keyfile, "global", "log-format-", topic);
-- 
2.43.0


From c7465017b2aa5a7dea2bcaaff7dbe217533552c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:48 +0000
Subject: [PATCH 12/96] fix: don't use an error after freeing it when writing
 fails twice

---
 libirc/transport_ioc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 094dc13..b903bd4 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -434,7 +434,7 @@ static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 			return TRUE;
 		case G_IO_STATUS_ERROR:
 			transport->callbacks->log(transport, l, error);
-			g_error_free(error);
+			g_clear_error(&error);
 			break;
 		case G_IO_STATUS_EOF:
 			backend_data->outgoing_id = 0;
-- 
2.43.0


From a27d2226216e17561842f8ed5d35e967af41411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:48 +0000
Subject: [PATCH 13/96] fix: send replies to the client that asked for them

Match replies with the target of the command rather than just with the kind
of command, don't let commands that succeeded silently eat replies meant for
others and forget about commands that were never replied to.
---
 libirc/redirect.c | 195 ++++++++++++++++++++++++++++++++++++++++------
 libirc/redirect.h |   6 ++
 2 files changed, 178 insertions(+), 23 deletions(-)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index 929ae2f..fbdfee2 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -22,8 +22,6 @@
 #include <string.h>
 #include "irc.h"
 
-/* TODO: Clean up stack occasionally */
-
 struct query_stack *new_query_stack(void (*ref_userdata) (void *), void (*unref_userdata) (void *))
 {
 	struct query_stack *stack = g_new0(struct query_stack, 1);
@@ -138,7 +136,7 @@ static struct query queries[] = {
 		  RPL_TRACEUNKNOWN, RPL_TRACEUSER, RPL_TRACECLASS,
 		  RPL_TRACEHANDSHAKE, RPL_TRACEOPERATOR,
 		  RPL_TRACESERVER, RPL_TRACENEWTYPE, 0 },
-		{ RPL_TRYAGAIN, 0 },
+		{ RPL_TRACEEND, RPL_TRYAGAIN, 0 },
 		{ ERR_NOSUCHSERVER, 0 },
 		handle_default
 	},
@@ -337,7 +335,7 @@ static struct query queries[] = {
  /* LUSERS [ <mask> [ <target> ] ] */
 	{ "LUSERS",
 		{ RPL_LUSERCLIENT, RPL_LUSEROP, RPL_LUSERUNKNOWN, RPL_LUSERCHANNELS,
-			RPL_LUSERME, RPL_STATSTLINE, 0 },
+			RPL_LUSERME, RPL_STATSTLINE, RPL_LOCALUSERS, RPL_GLOBALUSERS, 0 },
 		{ RPL_TRYAGAIN, 0 },
 		{ ERR_NOSUCHSERVER, 0 },
 		handle_default
@@ -353,9 +351,8 @@ static struct query queries[] = {
 
  /* ADMIN [ <target> ] */
 	{ "ADMIN",
-		{ RPL_ADMINME, RPL_ADMINLOC2, RPL_ADMINLOC1,
-			RPL_ADMINLOC3, 0 },
-		{ RPL_TRYAGAIN, 0 },
+		{ RPL_ADMINME, RPL_ADMINLOC2, RPL_ADMINLOC1, 0 },
+		{ RPL_ADMINLOC3, RPL_TRYAGAIN, 0 },
 		{ ERR_NOSUCHSERVER, 0 },
 		handle_default
 	},
@@ -519,37 +516,176 @@ static struct query *find_query(char *name)
 static void query_stack_free_entry(struct query_stack *stack, struct query_stack_entry *s)
 {
 	stack->unref_userdata(s->userdata);
+	free_line(s->line);
 	g_free(s);
 }
 
+/** Time after which no reply to a command is expected any more, in seconds. */
+#define QUERY_STACK_TIMEOUT 600
+
+/**
+ * Check whether the server usually doesn't reply to a command if it succeeds.
+ */
+static gboolean may_be_silent(const struct query_stack_entry *s)
+{
+	int i;
+
+	/* Setting something rather than asking for it? */
+	if (s->query->name != NULL && !base_strcmp(s->query->name, "TOPIC"))
+		return s->line->argc > 2;
+
+	if (s->query->name != NULL && !base_strcmp(s->query->name, "MODE"))
+		return s->line->argc > 3 || (s->line->argc == 3 &&
+			s->line->args[2][strspn(s->line->args[2], "+beI")] != '\0');
+
+	if (s->query->replies[0] != 0)
+		return FALSE;
+
+	for (i = 0; s->query->end_replies[i]; i++)
+		if (s->query->end_replies[i] != RPL_TRYAGAIN &&
+			s->query->end_replies[i] != RPL_AWAY)
+			return FALSE;
+
+	return TRUE;
+}
+
+/**
+ * Check whether a response mentions what a command was about.
+ */
+static gboolean response_concerns(const struct query_stack_entry *s,
+								  const struct irc_line *l)
+{
+	int i, j, k;
+	int first = (irc_line_respcode(l) == RPL_UMODEIS)?1:2;
+	gboolean has_text = !base_strcmp(s->line->args[0], "PRIVMSG") ||
+						!base_strcmp(s->line->args[0], "SQUERY");
+
+	/* Unknown command, not enough parameters */
+	if (l->argc > 2 && !base_strcmp(l->args[2], s->line->args[0]))
+		return TRUE;
+
+	if (s->query->name == NULL)
+		return FALSE;
+
+	if (s->line->argc < 2)
+		return TRUE;
+
+	for (i = 1; i < s->line->argc && i <= (has_text?1:2); i++) {
+		char **targets = g_strsplit(s->line->args[i], ",", 0);
+		gboolean found = FALSE;
+		for (j = first; j < l->argc && j <= first + 1; j++) {
+			found |= !base_strcmp(s->line->args[i], l->args[j]);
+			for (k = 0; targets[k]; k++)
+				found |= !base_strcmp(targets[k], l->args[j]);
+		}
+		g_strfreev(targets);
+		if (found)
+			return TRUE;
+	}
+
+	return FALSE;
+}
+
+/**
+ * Find the command that a response is most likely for.
+ *
+ * Commands that are always replied to are replied to in the order in
+ * which they were sent. For other commands the most recent one is used,
+ * since the server has probably silently accepted the older ones.
+ */
+static GList *find_entry(struct query_stack *stack, const struct irc_line *l,
+						 gboolean must_concern)
+{
+	int n = irc_line_respcode(l);
+	GList *gl, *ret = NULL;
+
+	for (gl = stack->entries; gl; gl = gl->next) {
+		struct query_stack_entry *s = gl->data;
+
+		if (!is_reply(s->query->replies, n) &&
+			!is_reply(s->query->errors, n) &&
+			!is_reply(s->query->end_replies, n))
+			continue;
+
+		if (must_concern && !response_concerns(s, l))
+			continue;
+
+		if (!may_be_silent(s))
+			return gl;
+
+		if (is_reply(s->query->errors, n) || n == RPL_AWAY || n == RPL_TRYAGAIN)
+			ret = gl;
+	}
+
+	return ret;
+}
+
 void *query_stack_match_response(struct query_stack *stack, const struct irc_line *l)
 {
 	int n;
 	void *ret = NULL;
 	GList *gl;
+	struct query_stack_entry *last;
 
 	g_assert(l->args[0]);
 
 	n = irc_line_respcode(l);
 
-	/* Find a request that this response is a reply to */
-	for (gl = stack->entries; gl; gl = gl->next) {
-		struct query_stack_entry *s = gl->data;
-		if (is_reply(s->query->replies, n) ||
-			is_reply(s->query->errors, n) ||
-			is_reply(s->query->end_replies, n)) {
-			
-			ret = s->userdata;
+	/* These may follow the last reply */
+	last = stack->last;
+	stack->last = NULL;
+	if (last != NULL) {
+		ret = ((n == RPL_TOPICWHOTIME && is_reply(last->query->end_replies, RPL_TOPIC)) ||
+			   (n == RPL_CREATIONTIME && is_reply(last->query->end_replies, RPL_CHANNELMODEIS))) &&
+			response_concerns(last, l)?last->userdata:NULL;
+		query_stack_free_entry(stack, last);
+		if (ret != NULL)
+			return ret;
+	}
 
-			/* Not a valid in-between reply ? Remove from stack */
-			if (!is_reply(s->query->replies, n)) {
-				/* Remove from stack */
-				stack->entries = g_list_remove(stack->entries, s);
+	/* There is no last reply to LUSERS, but there is a first one */
+	for (gl = stack->entries; gl && n == RPL_LUSERCLIENT; gl = gl->next) {
+		struct query_stack_entry *s = gl->data;
+		if (is_reply(s->query->replies, n)) {
+			if (s->replied) {
+				stack->entries = g_list_delete_link(stack->entries, gl);
 				query_stack_free_entry(stack, s);
 			}
+			break;
+		}
+	}
 
-			return ret;
+	/* Find a request that this response is a reply to */
+	switch (n) {
+	case RPL_WHOREPLY: case RPL_WHOSPCRPL: case RPL_LIST: case RPL_LINKS:
+		/* These list what matches, not what was asked for */
+		gl = find_entry(stack, l, FALSE);
+		break;
+	case RPL_NAMREPLY: case RPL_ENDOFNAMES: case RPL_TOPIC:
+		/* These are also sent unasked */
+		gl = find_entry(stack, l, TRUE);
+		break;
+	default:
+		gl = find_entry(stack, l, TRUE);
+		if (gl == NULL)
+			gl = find_entry(stack, l, FALSE);
+		break;
+	}
+
+	if (gl != NULL) {
+		struct query_stack_entry *s = gl->data;
+
+		ret = s->userdata;
+		s->replied = TRUE;
+
+		/* Not a valid in-between reply ? Remove from stack */
+		if (!is_reply(s->query->replies, n)) {
+			/* Remove from stack, but remember it for what may follow */
+			stack->entries = g_list_remove(stack->entries, s);
+			stack->last = s;
 		}
+
+		return ret;
 	}
 
 	return NULL;
@@ -557,6 +693,10 @@ void *query_stack_match_response(struct query_stack *stack, const struct irc_lin
 
 void query_stack_clear(struct query_stack *stack)
 {
+	if (stack->last != NULL) {
+		query_stack_free_entry(stack, stack->last);
+		stack->last = NULL;
+	}
 	while (stack->entries != NULL) {
 		struct query_stack_entry *e = stack->entries->data;
 		stack->entries = g_list_remove(stack->entries, e);
@@ -593,20 +733,29 @@ gboolean query_stack_record(struct query_stack *stack, void *userdata, const str
 static int handle_default(const struct irc_line *l, struct query_stack *stack,
 						  void *userdata, struct query *q)
 {
-	struct query_stack_entry *s = g_new(struct query_stack_entry, 1);
+	struct query_stack_entry *s = g_new0(struct query_stack_entry, 1);
 	g_assert(l != NULL);
 	g_assert(q != NULL);
 	stack->ref_userdata(userdata);
 	s->userdata = userdata;
 	s->time = time(NULL);
 	s->query = q;
+	s->line = linedup(l);
+
+	/* Forget about commands that were never replied to */
+	while (stack->entries != NULL) {
+		struct query_stack_entry *old = stack->entries->data;
+		if (old->time + QUERY_STACK_TIMEOUT > s->time)
+			break;
+		stack->entries = g_list_remove(stack->entries, old);
+		query_stack_free_entry(stack, old);
+	}
+
 	stack->entries = g_list_append(stack->entries, s);
 	return 1;
 }
 
 static int handle_topic(const struct irc_line *l, struct query_stack *stack, void *userdata, struct query *q)
 {
-	if (l->args[2] != NULL)
-		return 0;
 	return handle_default(l,stack,userdata,q);
 }
diff --git a/libirc/redirect.h b/libirc/redirect.h
index afa2bc9..b8aee8c 100644
--- a/libirc/redirect.h
+++ b/libirc/redirect.h
@@ -45,10 +45,16 @@ struct query_stack_entry {
 	const struct query *query;
 	void *userdata;
 	time_t time;
+	/** Copy of the command. */
+	struct irc_line *line;
+	/** Whether there has been a reply already. */
+	gboolean replied;
 };
 
 struct query_stack {
 	GList *entries;
+	/** The command most recently replied to, if any. */
+	struct query_stack_entry *last;
 	void (*unref_userdata) (void *);
 	void (*ref_userdata) (void *);
 };
-- 
2.43.0


From ad58d1a8f4710ef4f100b485e2200c9879cd36e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:22 +0000
Subject: [PATCH 14/96] fix: redirect errors about unrelated things properly

---
 libirc/redirect.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index fbdfee2..962ee99 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -610,6 +610,11 @@ static GList *find_entry(struct query_stack *stack, const struct irc_line *l,
 		if (must_concern && !response_concerns(s, l))
 			continue;
 
+		/* Errors about user modes aren't about channel modes */
+		if ((n == ERR_USERSDONTMATCH || n == ERR_UMODEUNKNOWNFLAG) &&
+			s->line->argc > 1 && strchr("#&!+", s->line->args[1][0]) != NULL)
+			continue;
+
 		if (!may_be_silent(s))
 			return gl;
 
@@ -666,8 +671,11 @@ void *query_stack_match_response(struct query_stack *stack, const struct irc_lin
 		gl = find_entry(stack, l, TRUE);
 		break;
 	default:
-		gl = find_entry(stack, l, TRUE);
-		if (gl == NULL)
+		gl = NULL;
+		if (l->argc > 3 || n == RPL_UMODEIS)
+			gl = find_entry(stack, l, TRUE);
+		/* Errors about a channel nobody mentioned weren't caused by a client */
+		if (gl == NULL && (n < 400 || l->argc < 4 || strchr("#&!+", l->args[2][0]) == NULL))
 			gl = find_entry(stack, l, FALSE);
 		break;
 	}
-- 
2.43.0


From 0434576031f05c247c5d8ff8f63de209485ccee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:46 +0000
Subject: [PATCH 15/96] fix: don't answer from the cache while what is in it is
 incomplete

Also look at the right argument of replies 221 and 331.
---
 libirc/state.c | 16 +++++++++-------
 libirc/state.h |  2 ++
 src/cache.c    | 13 ++++++++++++-
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 296505e..9f839b1 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -653,7 +653,7 @@ static void handle_333(struct irc_network_state *s, const struct irc_line *l)
 
 static void handle_no_topic(struct irc_network_state *s, const struct irc_line *l)
 {
-	struct irc_channel_state *c = find_channel(s, l->args[1]);
+	struct irc_channel_state *c = find_channel(s, l->args[2]);
 
 	if (c == NULL) {
 		network_state_log(LOG_WARNING, s,
@@ -687,6 +687,7 @@ static void handle_namreply(struct irc_network_state *s, const struct irc_line *
 	c->mode = l->args[2][0];
 	if (!c->namreply_started) {
 		free_names(c);
+		c->names_received = FALSE;
 		c->namreply_started = TRUE;
 	}
 
@@ -702,9 +703,10 @@ static void handle_namreply(struct irc_network_state *s, const struct irc_line *
 static void handle_end_names(struct irc_network_state *s, const struct irc_line *l)
 {
 	struct irc_channel_state *c = find_channel(s, l->args[2]);
-	if (c != NULL)
+	if (c != NULL) {
 		c->namreply_started = FALSE;
-	else
+		c->names_received = TRUE;
+	} else
 		network_state_log(LOG_WARNING, s,
 				  "Can't end /NAMES command for %s: channel not found",
 				  l->args[2]);
@@ -1102,9 +1104,9 @@ static void handle_nick(struct irc_network_state *s, const struct irc_line *l)
 
 static void handle_umodeis(struct irc_network_state *s, const struct irc_line *l)
 {
-	if (!string2mode(l->args[1], s->me.modes)) {
+	if (!string2mode(l->args[2], s->me.modes)) {
 		network_state_log(LOG_WARNING, s,
-						  "Invalid MODE change %s for user", l->args[1]);
+						  "Invalid MODE change %s for user", l->args[2]);
 	}
 }
 
@@ -1201,13 +1203,13 @@ static struct irc_command {
 	{ "001", 1, handle_001 },
 	{ "004", 5, handle_004 },
 	{ "005", 3, handle_005 },
-	{ "221", 1, handle_umodeis },
+	{ "221", 2, handle_umodeis },
 	{ "302", 2, handle_302 },
 	{ "324", 3, handle_324 },
 	{ "329", 3, handle_329 },
 	{ "332", 3, handle_332 },
 	{ "333", 3, handle_333 },
-	{ "331", 1, handle_no_topic },
+	{ "331", 2, handle_no_topic },
 	{ "353", 4, handle_namreply },
 	{ "366", 2, handle_end_names },
 	{ "367", 2, handle_banlist_entry },
diff --git a/libirc/state.h b/libirc/state.h
index 496fd34..3660c1c 100644
--- a/libirc/state.h
+++ b/libirc/state.h
@@ -101,6 +101,8 @@ struct irc_channel_state {
 	gboolean invitelist_started;
 	gboolean exceptlist_started;
 	gboolean mode_received;
+	/** Whether the list of names has been received completely. */
+	gboolean names_received;
 	GList *nicks;
 
 	struct irc_network_state *network;
diff --git a/src/cache.c b/src/cache.c
index 01cd381..b239404 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -59,7 +59,8 @@ static gboolean client_try_cache_mode(struct irc_client *c,
 			case 'b':
 				/* The list is only known if it was requested before */
 				if (l->args[2][1] != '\0' ||
-				    !channel_mode_nicklist_present(ch, 'b')) {
+				    !channel_mode_nicklist_present(ch, 'b') ||
+				    ch->banlist_started) {
 					return FALSE;
 				}
 				client_send_banlist(c, ch);
@@ -114,6 +115,11 @@ static gboolean client_try_cache_topic(struct irc_client *c,
 		return FALSE;
 	}
 
+	/* The topic is sent before the names when joining */
+	if (!ch->names_received) {
+		return FALSE;
+	}
+
 	client_send_topic(c, ch, TRUE);
 
 	return TRUE;
@@ -233,6 +239,11 @@ static gboolean client_try_cache_names(struct irc_client *c,
 		return FALSE;
 	}
 
+	/* Still receiving the names? */
+	if (!ch->names_received) {
+		return FALSE;
+	}
+
 	client_send_nameslist(c, ch);
 
 	return TRUE;
-- 
2.43.0


From cc5c9de9157e2b201da551878c0027fdcf87c16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:51 +0000
Subject: [PATCH 16/96] fix: don't take errors about setting modes for replies
 to mode queries

---
 libirc/redirect.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index 962ee99..5c681c3 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -615,8 +615,13 @@ static GList *find_entry(struct query_stack *stack, const struct irc_line *l,
 			s->line->argc > 1 && strchr("#&!+", s->line->args[1][0]) != NULL)
 			continue;
 
-		if (!may_be_silent(s))
-			return gl;
+		if (!may_be_silent(s)) {
+			/* Asking for modes usually doesn't require any privileges */
+			if (n != ERR_CHANOPPRIVSNEEDED || base_strcmp(s->line->args[0], "MODE"))
+				return gl;
+			if (ret != NULL)
+				continue;
+		}
 
 		if (is_reply(s->query->errors, n) || n == RPL_AWAY || n == RPL_TRYAGAIN)
 			ret = gl;
-- 
2.43.0


From cef5f189824f3d565461a636a7d9760478b67d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:38 +0000
Subject: [PATCH 17/96] fix: tell all clients about all users that are gone
 when the server is lost

---
 libirc/client.c | 48 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 798ee20..565e2ef 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -718,6 +718,30 @@ gboolean client_send_topic(struct irc_client *c, struct irc_channel_state *ch,
 	return TRUE;
 }
 
+/**
+ * Add a nick to the list of names in a NAMES reply.
+ *
+ * @return FALSE if the nick doesn't fit on the line
+ */
+static gboolean nameslist_add_nick(struct irc_line *l, const char *nick)
+{
+	char *names;
+	int len = strlen(l->origin?l->origin:"") + strlen(nick) + 6;
+	int i;
+
+	for (i = 0; i < l->argc; i++)
+		len += strlen(l->args[i]) + 1;
+
+	if (len > IRC_MAXLINELEN)
+		return FALSE;
+
+	names = g_strdup_printf("%s %s", l->args[l->argc-1], nick);
+	g_free(l->args[l->argc-1]);
+	l->args[l->argc-1] = names;
+
+	return TRUE;
+}
+
 gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *ch)
 {
 	GList *nl;
@@ -748,8 +772,7 @@ gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *c
 
 		ret = TRUE;
 
-		if (l == NULL || !line_add_arg(l, arg)) {
-			char *tmp;
+		if (l == NULL || !nameslist_add_nick(l, arg)) {
 			if (l != NULL) {
 				ret = client_send_line(c, l, NULL);
 				free_line(l);
@@ -757,11 +780,8 @@ gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *c
 
 			l = irc_parse_line_args(c->default_origin, "353",
 						client_get_default_target(c),
-						mode, ch->name, NULL);
-			l->has_endcolon = WITHOUT_COLON;
-			tmp = g_strdup_printf(":%s", arg);
-			g_assert(line_add_arg(l, tmp));
-			g_free(tmp);
+						mode, ch->name, arg, NULL);
+			l->has_endcolon = WITH_COLON;
 		}
 
 		g_free(arg);
@@ -793,15 +813,16 @@ gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *c
 gboolean clients_send_state(GList *clients, struct irc_network_state *s)
 {
 	GList *gl;
+	gboolean ret = TRUE;
 
 	for (gl = clients; gl; gl = gl->next) {
 		struct irc_client *c = gl->data;
 		if (!client_send_state(c, s)) {
-			return FALSE;
+			ret = FALSE;
 		}
 	}
 
-	return TRUE;
+	return ret;
 }
 
 gboolean client_send_banlist(struct irc_client *client, struct irc_channel_state *channel)
@@ -887,14 +908,15 @@ gboolean clients_send_netsplit(GList *clients, const char *my_name,
 			   const char *lost_server)
 {
 	GList *gl;
+	gboolean ret = TRUE;
 	for (gl = clients; gl; gl = gl->next) {
 		struct irc_client *c = gl->data;
 		if (!client_send_netsplit(c, my_name, lost_server)) {
-			return FALSE;
+			ret = FALSE;
 		}
 	}
 
-	return FALSE;
+	return ret;
 }
 
 gboolean client_send_nick_quit(struct irc_client *c, struct network_nick *gn,
@@ -946,6 +968,10 @@ gboolean client_send_netsplit(struct irc_client *c, const char *my_name,
 		if (!ret) {
 			break;
 		}
+
+		/* Usually already gone because of the QUIT that was sent */
+		if (g_list_find(s->nicks, gn) != NULL)
+			free_network_nick(s, gn);
 	}
 
 	g_free(reason);
-- 
2.43.0


From 3ef0035dbd57cf7d600d2fd25b88c53c2a9db259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:58 +0000
Subject: [PATCH 18/96] fix: tell clients when a command can't be sent to the
 server

---
 src/client.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/client.c b/src/client.c
index 3f7d920..3ecca1f 100644
--- a/src/client.c
+++ b/src/client.c
@@ -38,7 +38,9 @@ static gboolean process_to_client(struct irc_client *c, const struct irc_line *l
 
 static void handle_offline_command(struct irc_client *c, const struct irc_line *l, const char *offline_reason)
 {
-	if (!base_strcmp(l->args[0], "PRIVMSG") || !base_strcmp(l->args[0], "NOTICE")) {
+	if (l->argc < 2) {
+		client_send_response(c, ERR_UNKNOWNCOMMAND, l->args[0], offline_reason, NULL);
+	} else if (!base_strcmp(l->args[0], "PRIVMSG") || !base_strcmp(l->args[0], "NOTICE")) {
 		client_send_response(c, ERR_NOSUCHNICK, l->args[1], offline_reason, NULL);
 	} else if (!base_strcmp(l->args[0], "JOIN")) {
 		/* Make network->internal_state join channel */
@@ -94,10 +96,11 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 	} else if (!base_strcmp(l->args[0], "CTRLPROXY")) {
 		admin_process_command(c, l, 1);
 	} else if (c->network->global->config->admin_user != NULL &&
-			   !base_strcmp(l->args[0], "PRIVMSG") &&
+			   !base_strcmp(l->args[0], "PRIVMSG") && l->argc > 1 &&
 			   !base_strcmp(l->args[1], c->network->global->config->admin_user)) {
 		admin_process_command(c, l, 2);
 	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
+			c->network->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD &&
 			l->args[2][0] == '\001' &&
 			base_strncmp(l->args[2], "\001ACTION", 7) != 0) {
 		ctcp_client_request_record(c, l);
@@ -105,6 +108,7 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 		/* send off to server */
 		network_forward_line(c->network, c, l, TRUE);
 	} else if (!base_strcmp(l->args[0], "NOTICE") && l->argc > 2 &&
+			c->network->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD &&
 			l->args[2][0] == '\001') {
 		network_forward_line(c->network, c, l, TRUE);
 	} else if (!base_strcmp(l->args[0], "")) {
@@ -116,7 +120,7 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 			 * to the server, though unlikely to occur often */
 			network_forward_line(c->network, c, l, FALSE);
 		}
-	} else if (c->network->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED) {
+	} else {
 		char *msg;
 		if (c->network->connection.data.tcp.last_disconnect_reason == NULL) {
 			msg = g_strdup("Currently not connected to server...");
-- 
2.43.0


From dbbc99aed3cfefbd2399d96ff2172bae47afbd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:05 +0000
Subject: [PATCH 19/96] fix: don't process the beginning of a line when the
 connection is lost half way

---
 libirc/line.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libirc/line.c b/libirc/line.c
index de65fa8..6f2de1b 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -381,7 +381,7 @@ GIOStatus irc_recv_line(GIOChannel *c, GIConv iconv,
 {
 	gchar *raw = NULL, *cvrt = NULL;
 	GIOStatus status;
-	gsize in_len;
+	gsize in_len, term_pos;
 
 	g_assert(l != NULL);
 
@@ -389,12 +389,18 @@ GIOStatus irc_recv_line(GIOChannel *c, GIConv iconv,
 
 	g_assert(c);
 
-	status = g_io_channel_read_line(c, &raw, &in_len, NULL, error);
+	status = g_io_channel_read_line(c, &raw, &in_len, &term_pos, error);
 	if (status != G_IO_STATUS_NORMAL) {
 		g_free(raw);
 		return status;
 	}
 
+	if (term_pos == in_len) {
+		/* The connection was lost half way through this line */
+		g_free(raw);
+		return G_IO_STATUS_EOF;
+	}
+
 	if (iconv == (GIConv)-1) {
 		cvrt = raw;
 	} else {
-- 
2.43.0


From e6f4b37b512592150ae3724fede942b86a37ccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:36 +0000
Subject: [PATCH 20/96] fix: don't keep two users with the same nick after a
 nick change

---
 libirc/state.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libirc/state.c b/libirc/state.c
index 9f839b1..3a7d6de 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1088,7 +1088,7 @@ static void handle_privmsg(struct irc_network_state *s, const struct irc_line *l
 
 static void handle_nick(struct irc_network_state *s, const struct irc_line *l)
 {
-	struct network_nick *nn;
+	struct network_nick *nn, *old;
 	char *nick;
 
 	CHECK_ORIGIN(s, l, "NICK");
@@ -1098,6 +1098,11 @@ static void handle_nick(struct irc_network_state *s, const struct irc_line *l)
 	g_free(nick);
 
 	if (nn != NULL) {
+		/* Forget about whoever used this nick before */
+		old = find_network_nick(s, l->args[1]);
+		if (old != NULL && old != nn && old != &s->me)
+			free_network_nick(s, old);
+
 		network_nick_set_nick(nn, l->args[1]);
 	}
 }
-- 
2.43.0


From 248c0481a811d3bafc0101f57861819286b3f731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:28 +0000
Subject: [PATCH 21/96] fix: don't end the list of names for a client while the
 server is still sending it

---
 libirc/client.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libirc/client.c b/libirc/client.c
index 565e2ef..4e2154f 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -799,6 +799,12 @@ gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *c
 		}
 	}
 
+	/* The server is still sending the list: the rest of it and its end will
+	 * reach the client as well */
+	if (ch->namreply_started) {
+		return TRUE;
+	}
+
 	return client_send_response(c, RPL_ENDOFNAMES, ch->name, "End of /NAMES list",
 			     NULL);
 }
-- 
2.43.0


From 25950374995ffd8879f64c5a32e8dea3e3861521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:43 +0000
Subject: [PATCH 22/96] fix: use the nick the server welcomed the user with in
 the user's hostmask as well

---
 libirc/state.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 3a7d6de..3611a3e 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1055,8 +1055,7 @@ static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
 
 static void handle_001(struct irc_network_state *s, const struct irc_line *l)
 {
-	g_free(s->me.nick);
-	s->me.nick = g_strdup(l->args[1]);
+	network_nick_set_nick(&s->me, l->args[1]);
 }
 
 static void handle_004(struct irc_network_state *s, const struct irc_line *l)
-- 
2.43.0


From c2a06a9aa2858dd3043ca39014a443d446093613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:26 +0000
Subject: [PATCH 23/96] fix: don't wait for a peer that doesn't read when a
 connection is dropped

---
 libirc/transport_ioc.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index b903bd4..35f4f36 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -59,9 +59,14 @@ static void irc_transport_iochannel_free_data(void *data)
 
 	g_assert(backend_data->pending_disconnect);
 
-	/* There may still be lines that could not be sent */
-	if (backend_data->incoming != NULL)
+	/* There may still be lines that could not be sent. Don't wait for the
+	 * peer to read them, which closing the channel would do. */
+	if (backend_data->incoming != NULL) {
+		GIOChannel *ioc = g_io_channel_ref(backend_data->incoming);
 		really_disconnect(backend_data);
+		g_io_channel_shutdown(ioc, FALSE, NULL);
+		g_io_channel_unref(ioc);
+	}
 
 	if (backend_data->outgoing_iconv != (GIConv)-1)
 		g_iconv_close(backend_data->outgoing_iconv);
-- 
2.43.0


From 6c273e8937fd1d0f97d8b0e81821c96c2f329cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:10 +0000
Subject: [PATCH 24/96] fix: don't ask for strict ANSI C, which the headers of
 current libraries no longer are

---
 configure.ac | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configure.ac b/configure.ac
index 70e6993..54f6d83 100644
--- a/configure.ac
+++ b/configure.ac
@@ -26,7 +26,7 @@ AC_PROG_INSTALL
 AC_PATH_PROG(IRCDTORTURE,ircdtorture)
 
 if test "$GCC" = "yes"; then
-	CFLAGS="$CFLAGS -ansi -Wall"
+	CFLAGS="$CFLAGS -std=gnu89 -Wall"
 	DYNAMIC="-rdynamic"
 fi
 AC_SUBST(GCC)
-- 
2.43.0


From 26a9cf5c669a86af73adbe6cd589cc9b76b63bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:58 +0000
Subject: [PATCH 25/96] fix: don't give a client the answer to the proxy's own
 USERHOST

---
 libirc/redirect.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index 5c681c3..d2e4ece 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -570,6 +570,16 @@ static gboolean response_concerns(const struct query_stack_entry *s,
 	if (s->line->argc < 2)
 		return TRUE;
 
+	if (irc_line_respcode(l) == RPL_USERHOST) {
+		size_t len = strcspn(l->args[2], "*= ");
+		for (i = 1; i < s->line->argc; i++) {
+			if (strlen(s->line->args[i]) == len &&
+				!base_strncmp(s->line->args[i], l->args[2], len))
+				return TRUE;
+		}
+		return FALSE;
+	}
+
 	for (i = 1; i < s->line->argc && i <= (has_text?1:2); i++) {
 		char **targets = g_strsplit(s->line->args[i], ",", 0);
 		gboolean found = FALSE;
@@ -675,6 +685,10 @@ void *query_stack_match_response(struct query_stack *stack, const struct irc_lin
 		/* These are also sent unasked */
 		gl = find_entry(stack, l, TRUE);
 		break;
+	case RPL_USERHOST:
+		/* The proxy asks for this itself as well */
+		gl = find_entry(stack, l, l->argc > 2 && l->args[2][0] != '\0');
+		break;
 	default:
 		gl = NULL;
 		if (l->argc > 3 || n == RPL_UMODEIS)
-- 
2.43.0


From 0f8abe6444c454e12cd1df4b0b541a377a27fa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:05 +0000
Subject: [PATCH 26/96] fix: keep checking whether a server is still alive
 after it just sent something

---
 libirc/connection.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index 27348a5..055af51 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -395,18 +395,20 @@ static gboolean bindsock(struct irc_network *s,
  * Ping the network.
  *
  * @param server network to ping
- * @param ping_source GSource id of the ping event
+ * @return whether to keep the timer
  */
-static void ping_server(struct irc_network *server, gboolean ping_source)
+static gboolean ping_server(struct irc_network *server)
 {
 	gint silent_time = time(NULL) - server->connection.last_line_recvd;
 	if (silent_time > MAX_SILENT_TIME) {
 		network_report_disconnect(server, "Ping timeout (%d seconds)",
 								  silent_time);
 		reconnect(server);
+		return FALSE;
 	} else if (silent_time > MIN_SILENT_TIME) {
 		network_send_args(server, "PING", "ctrlproxy", NULL);
 	}
+	return TRUE;
 }
 
 static gboolean connect_current_tcp_server(struct irc_network *s)
-- 
2.43.0


From fc7aaf65b0971a97cb982850e2e9b9796fd25f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:49 +0000
Subject: [PATCH 27/96] fix: return all of the data of a CTCP PING

---
 src/ctcp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ctcp.c b/src/ctcp.c
index 01b3fa2..d6982fd 100644
--- a/src/ctcp.c
+++ b/src/ctcp.c
@@ -122,7 +122,9 @@ static void handle_version(struct ctcp_handle *h, const char **args)
 
 static void handle_ping(struct ctcp_handle *h, const char **args)
 {
-	ctcp_reply(h, "PING", args[1], NULL);
+	char *data = g_strjoinv(" ", (char **)args+1);
+	ctcp_reply(h, "PING", args[1] != NULL?data:NULL, NULL);
+	g_free(data);
 }
 
 static void handle_clientinfo(struct ctcp_handle *h, const char **args);
-- 
2.43.0


From 9c89d3daaa116eaa80b62fb155964f608c6b69a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:49 +0000
Subject: [PATCH 28/96] fix: don't crash on an empty CTCP request

---
 src/ctcp.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ctcp.c b/src/ctcp.c
index d6982fd..621dc6c 100644
--- a/src/ctcp.c
+++ b/src/ctcp.c
@@ -197,6 +197,14 @@ gboolean ctcp_process_request (struct irc_network *n, const struct irc_line *l)
 	*t = '\0';
 
 	args = g_strsplit(data, " ", 0);
+	if (args[0] == NULL) {
+		network_log(LOG_WARNING, n, "Empty CTCP request from %s!", h.nick);
+		g_strfreev(args);
+		g_free(data);
+		g_free(h.nick);
+		return FALSE;
+	}
+
 	for (gl = cmds; gl; gl = gl->next) {
 		struct ctcp_handler *hl = gl->data;
 
-- 
2.43.0


From 348a2112b6ed1a4973a883b38030ba2f043e49fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:49 +0000
Subject: [PATCH 29/96] fix: know the user's own real name, also before a WHO
 reply mentions it

---
 libirc/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libirc/connection.c b/libirc/connection.c
index 055af51..d9ed1ac 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -50,6 +50,7 @@ static void server_send_login (struct irc_network *s)
 
 	s->external_state = network_state_init(login_details->nick, login_details->username,
 								  get_my_hostname());
+	s->external_state->me.fullname = g_strdup(login_details->realname);
 	network_state_set_log_fn(s->external_state, state_log_helper, s);
 	if (s->callbacks->state_set)
 		s->callbacks->state_set(s);
-- 
2.43.0


From aa262c8fd75d6079574196520a2ab1e7641226cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:58 +0000
Subject: [PATCH 30/96] fix: leave the user away who set away himself, and
 don't touch connections that are not logged in

---
 src/auto_away.c | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/auto_away.c b/src/auto_away.c
index ba6c10d..4293eb9 100644
--- a/src/auto_away.c
+++ b/src/auto_away.c
@@ -37,8 +37,26 @@ struct auto_away_data {
  	time_t last_message;
 	guint timeout_id;
 	struct global *global;
+	/* Networks on which the user was marked away by us, as opposed to by
+	 * one of the clients */
+	GList *away_networks;
 };
 
+static void set_away(struct auto_away_data *d, struct irc_network *s)
+{
+	network_send_args(s, "AWAY",
+					  d->config->message != NULL?d->config->message:"Auto Away",
+					  NULL);
+	d->away_networks = g_list_prepend(d->away_networks, s);
+}
+
+static void set_back(struct auto_away_data *d, struct irc_network *s)
+{
+	if (s->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD &&
+		g_list_find(d->away_networks, s) != NULL)
+		network_send_args(s, "AWAY", NULL);
+}
+
 static gboolean check_time(gpointer user_data)
 {
 	struct auto_away_data *d = (struct auto_away_data *)user_data;
@@ -50,9 +68,7 @@ static gboolean check_time(gpointer user_data)
 			if (s->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD &&
 				s->external_state != NULL && !s->external_state->is_away &&
 			    (d->config->client_limit < 0 || g_list_length(s->clients) <= d->config->client_limit)) {
-				network_send_args(s, "AWAY",
-								  d->config->message != NULL?d->config->message:"Auto Away",
-								  NULL);
+				set_away(d, s);
 				if (d->config->nick != NULL) {
 					network_send_args(s, "NICK", d->config->nick, NULL);
 				}
@@ -71,6 +87,7 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l,
 
 	if (dir == TO_SERVER && !base_strcmp(l->args[0], "AWAY")) {
 		d->last_message = time(NULL);
+		d->away_networks = g_list_remove_all(d->away_networks, n);
 	}
 
 	if (dir == TO_SERVER &&
@@ -78,10 +95,7 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l,
 		!base_strcmp(l->args[0], "NOTICE"))) {
 		d->last_message = time(NULL);
 		for (sl = d->global->networks; sl; sl = sl->next) {
-			struct irc_network *s = (struct irc_network *)sl->data;
-			if (s->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD &&
-				s->external_state != NULL && s->external_state->is_away)
-				network_send_args(s, "AWAY", NULL);
+			set_back(d, (struct irc_network *)sl->data);
 		}
 	}
 	return TRUE;
@@ -92,7 +106,7 @@ static gboolean new_client(struct irc_client *c, void *userdata)
 	struct auto_away_data *d = userdata;
 
 	if (d->config->client_limit >= 0 && d->config->client_limit < g_list_length(c->network->clients)+1)
-		network_send_args(c->network, "AWAY", NULL);
+		set_back(d, c->network);
 
 	return TRUE;
 }
@@ -101,10 +115,10 @@ static void lose_client(struct irc_client *c, void *userdata)
 {
 	struct auto_away_data *d = userdata;
 
-	if (d->config->client_limit >= 0 && d->config->client_limit >= g_list_length(c->network->clients))
-		network_send_args(c->network, "AWAY",
-								  d->config->message != NULL?d->config->message:"Auto Away",
-								  NULL);
+	if (d->config->client_limit >= 0 && d->config->client_limit >= g_list_length(c->network->clients) &&
+		c->network->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD &&
+		!c->network->external_state->is_away)
+		set_away(d, c->network);
 }
 
 void auto_away_add(struct global *global, struct auto_away_config *config)
-- 
2.43.0


From fc899f01e07ee828e0dd468538f66ef343f89e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:53 +0000
Subject: [PATCH 31/96] fix: prefer the NickServ password of the network over
 one for all networks

A password learned for a network was never used if an entry for any
network preceded it in the nickserv file.
---
 src/nickserv.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/nickserv.c b/src/nickserv.c
index b335e47..e492c5a 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -35,6 +35,7 @@
 
 const char *nickserv_find_nick(struct irc_network *n, const char *nick)
 {
+	const char *pass = NULL;
 	GList *gl;
 	for (gl = n->global->nickserv_nicks; gl; gl = gl->next) {
 		struct keyfile_entry *e = gl->data;
@@ -43,15 +44,16 @@ const char *nickserv_find_nick(struct irc_network *n, const char *nick)
 			continue;
 		}
 
-		if (e->network == NULL) {
+		/* An entry for this network goes before one for all networks */
+		if (e->network != NULL && !strcasecmp(e->network, n->name)) {
 			return e->pass;
 		}
-		if (!strcasecmp(e->network, n->name)) {
-			return e->pass;
+		if (e->network == NULL && pass == NULL) {
+			pass = e->pass;
 		}
 	}
 
-	return NULL;
+	return pass;
 }
 
 const char *nickserv_nick(struct irc_network *n)
@@ -97,14 +99,15 @@ static void cache_nickserv_pass(struct irc_network *n, const char *newpass)
 		e = gl->data;
 
 		if (e->network && !strcasecmp(e->network, n->name) &&
-			!strcasecmp(e->nick, n->external_state->me.nick)) {
+			!irccmp(n->info, e->nick, n->external_state->me.nick)) {
 			break;
 		}
+	}
 
-		if (!e->network && !irccmp(n->external_state->info, e->nick, n->external_state->me.nick) &&
-			!strcmp(e->pass, newpass)) {
-			break;
-		}
+	if (gl == NULL) {
+		const char *pass = nickserv_find_nick(n, n->external_state->me.nick);
+		if (pass != NULL && !strcmp(pass, newpass))
+			return;
 	}
 
 	if (gl == NULL) {
-- 
2.43.0


From c300372cdb89381ef1c829e88f2bb4dab4ecf8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:02 +0000
Subject: [PATCH 32/96] fix: don't crash on incomplete NickServ commands, and
 only identify for nicks taken on this network

The last nick a client had asked for was remembered for all networks
together, and anybody taking a nick with that name made the proxy send the
password for it.
---
 src/nickserv.c | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/nickserv.c b/src/nickserv.c
index e492c5a..0de2fb5 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -125,39 +125,31 @@ static void cache_nickserv_pass(struct irc_network *n, const char *newpass)
 
 static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum data_direction dir, void *userdata)
 {
-	static char *nickattempt = NULL;
-
 	/* User has changed his/her nick. Check whether this nick needs to be identified */
 	if (dir == FROM_SERVER && !irccmp(n->info, l->args[0], "NICK") &&
-	   nickattempt && !irccmp(n->info, nickattempt, l->args[1])) {
+	   l->args[1] != NULL && !strcmp(n->external_state->me.nick, l->args[1])) {
 		nickserv_identify_me(n, l->args[1]);
 	}
 
-	/* Keep track of the last nick that the user tried to take */
-	if (dir == TO_SERVER && !irccmp(n->info, l->args[0], "NICK")) {
-		if (nickattempt) {
-			g_free(nickattempt);
-		}
-		nickattempt = g_strdup(l->args[1]);
-	}
-
-	if (dir == TO_SERVER &&
+	if (dir == TO_SERVER && l->argc > 2 &&
 		(!irccmp(n->info, l->args[0], "PRIVMSG") || !irccmp(n->info, l->args[0], "NOTICE")) &&
 		(!irccmp(n->info, l->args[1], nickserv_nick(n)) &&
 		 !ircncmp(n->info, l->args[2], "IDENTIFY ", strlen("IDENTIFY ")))) {
 			cache_nickserv_pass(n, l->args[2] + strlen("IDENTIFY "));
 	}
 
-	if (dir == TO_SERVER &&
+	if (dir == TO_SERVER && l->argc > 2 &&
 		!irccmp(n->info, l->args[0], "NS") &&
 		!irccmp(n->info, l->args[1], "IDENTIFY")) {
 		cache_nickserv_pass(n, l->args[2]);
 	}
 
 	/* If we receive a nick-already-in-use message, ghost the current user */
-	if (dir == FROM_SERVER && atol(l->args[0]) == ERR_NICKNAMEINUSE) {
+	if (dir == FROM_SERVER && atol(l->args[0]) == ERR_NICKNAMEINUSE &&
+		l->argc > 2) {
+		const char *nickattempt = l->args[2];
 		const char *pass = nickserv_find_nick(n, nickattempt);
-		if (nickattempt && pass) {
+		if (pass) {
 			const char *nickserv_n = nickserv_nick(n);
 			char *raw;
 
-- 
2.43.0


From eb3b3c7ca9e650a28e94f73bce36aeb6a872bf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:24 +0000
Subject: [PATCH 33/96] fix: compare no more than the given number of
 characters

ircncmp() also compared the character after the last one, so that the
password in a message to NickServ was never noticed.
---
 libirc/util.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libirc/util.c b/libirc/util.c
index b139315..5397ba4 100644
--- a/libirc/util.c
+++ b/libirc/util.c
@@ -64,6 +64,9 @@ static inline int str_cmphelper(const char *a, const char *b, size_t len, char s
 			break;
 	}
 
+	if (i == len)
+		return 0;
+
 	return a[i]-b[i];
 }
 
-- 
2.43.0


From 9cc5825498842556fb5450ff8742aa938bc8288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:17 +0000
Subject: [PATCH 34/96] fix: keep trying when the first attempt to connect
 fails at once

A failing name lookup or connect() at startup left the network disconnected
for good, and later on kept retrying the same server only.
---
 libirc/connection.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index d9ed1ac..06379b9 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -845,8 +845,13 @@ static gboolean connect_server(struct irc_network *s)
 static gboolean delayed_connect_server(struct irc_network *s)
 {
 	g_assert(s);
-	connect_server(s);
-	return (s->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING);
+	/* The timer ends here. If this attempt fails there will be a new one. */
+	s->reconnect_id = 0;
+	s->connection.state = NETWORK_CONNECTION_STATE_NOT_CONNECTED;
+	if (!connect_server(s) &&
+		s->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED)
+		reconnect(s);
+	return FALSE;
 }
 
 struct irc_network *irc_network_new(const struct irc_network_callbacks *callbacks, void *private_data)
@@ -878,11 +883,23 @@ struct irc_network *irc_network_new(const struct irc_network_callbacks *callback
  */
 gboolean connect_network(struct irc_network *s)
 {
+	struct network_config *nc;
+
 	g_assert(s);
 	g_assert(s->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED ||
 			 s->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING);
 
-	return connect_server(s);
+	if (connect_server(s))
+		return TRUE;
+
+	/* Keep trying if there is something to connect to */
+	nc = s->private_data;
+	if (s->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED &&
+		nc->type == NETWORK_TCP &&
+		s->connection.data.tcp.current_server != NULL)
+		reconnect(s);
+
+	return FALSE;
 }
 
 static void free_network(struct irc_network *s)
-- 
2.43.0


From 2f80c7c4f2173fff56cdde9fbc37cf6e0f219ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:18 +0000
Subject: [PATCH 35/96] fix: don't leak a socket for each connection attempt
 that fails at once

---
 libirc/connection.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libirc/connection.c b/libirc/connection.c
index 06379b9..167b18c 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -485,8 +485,11 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 				connect_finished = FALSE;
 				break;
 			}
+			error = errno;
 			g_io_channel_unref(ioc);
 			ioc = NULL;
+			close(sock);
+			errno = error;
 			continue;
 		}
 
@@ -499,6 +502,7 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 
 	if (!res || !ioc) {
 		network_log(LOG_ERROR, s, "Unable to connect: %s", strerror(errno));
+		freeaddrinfo(addrinfo);
 		return FALSE;
 	}
 
-- 
2.43.0


From 1ca8244a3b0659a7e3b047d447308ec258fa25d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:34 +0000
Subject: [PATCH 36/96] fix: save channel keys before the files they are taken
 from, and forget networks last

A crash while saving lost the keys, or left a reference to a deleted network.
---
 src/settings.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 03e04b5..9d67272 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -256,14 +256,6 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 							   autojoin_list_count);
 
 	g_free(autojoin_list);
-
-	if (n->filename != NULL) {
-		GError *error = NULL;
-		if (!g_key_file_save_to_file(kf, n->filename, &error)) {
-			log_global(LOG_WARNING, "Unable to save network: %s", error->message);
-			g_error_free(error);
-		}
-	}
 }
 
 /* Listener that only accepts the users that are listed */
@@ -391,8 +383,8 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 			config_save_network(cfg, networksdir, n, &channel_keys);
 	}
 
-	config_cleanup_networks_dir(cfg);
-
+	/* The keys go first: they are no longer in the network files once those
+	 * have been written. */
 	if (channel_keys != NULL) {
 		char *filename = g_build_filename(cfg->config_dir, "keys",
 									  NULL);
@@ -408,6 +400,19 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 		g_free(filename);
 	}
 
+	for (gl = networks; gl; gl = gl->next) {
+		struct network_config *n = gl->data;
+		GError *error = NULL;
+
+		if (n->implicit || n->filename == NULL)
+			continue;
+
+		if (!g_key_file_save_to_file(n->keyfile, n->filename, &error)) {
+			log_global(LOG_WARNING, "Unable to save network: %s", error->message);
+			g_error_free(error);
+		}
+	}
+
 	g_free(networksdir);
 }
 
@@ -530,6 +535,9 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 	if (!g_key_file_save_to_file(cfg->keyfile, fn, &error)) {
 		log_global(LOG_WARNING, "Unable to save configuration: %s", error->message);
 		g_error_free(error);
+	} else {
+		/* Nothing refers to the networks that are gone any more */
+		config_cleanup_networks_dir(cfg);
 	}
 	g_free(fn);
 }
-- 
2.43.0


From 1a455fa13a299a06552bf3a124dc8eb263b122be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:47 +0000
Subject: [PATCH 37/96] fix: replay the whole backlog starting from the state
 at login when there is no earlier point to start from

---
 libirc/linestack.c  |  5 ++++-
 src/network.c       |  6 ++++++
 src/repl_backends.c | 35 +++++++++++++++++------------------
 3 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 873f9e4..dbc8ec7 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -232,7 +232,10 @@ struct irc_network_state *linestack_get_state(
 	status = g_io_channel_flush(nd->index_file, &error);
 	LF_CHECK_IO_STATUS(status);
 
-	if (to_index != NULL) {
+	if (to_index != NULL && *to_index == 0) {
+		/* Nothing happened yet */
+		state_index = 0;
+	} else if (to_index != NULL) {
 		t = (*to_index)-1;
 		status = g_io_channel_seek_position(nd->index_file,
 			t * INDEX_RECORD_SIZE + sizeof(guint64) + sizeof(time_t),
diff --git a/src/network.c b/src/network.c
index 24088e2..1878c50 100644
--- a/src/network.c
+++ b/src/network.c
@@ -179,6 +179,12 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 
 		network_update_isupport(n->info, n->external_state->info);
 
+		/* The server may have changed the nick and other things while
+		 * logging in; the backlog starts with how things are now. */
+		if (n->linestack != NULL)
+			free_linestack_context(n->linestack);
+		n->linestack = new_linestack(n, n->global->config->linestack_dir);
+
 		nickserv_identify_me(n, n->external_state->me.nick);
 
 		clients_send_state(n->clients, n->external_state);
diff --git a/src/repl_backends.c b/src/repl_backends.c
index 3c69940..eba4a85 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -75,14 +75,23 @@ static void lastdisconnect_mark(struct irc_client *c, void *userdata)
 							 linestack_get_marker(c->network->linestack));
 }
 
-static void lastdisconnect_replicate(struct irc_client *c)
+/**
+ * Send what happened since a particular moment.
+ *
+ * @param c Client to send to
+ * @param lm Moment to start at, NULL for the beginning of the connection.
+ */
+static void replicate_since(struct irc_client *c, linestack_marker lm)
 {
-	linestack_marker lm = g_hash_table_lookup(lastdisconnect_backlog, c->network);
 	struct irc_network_state *ns;
+	guint64 start = 0;
 
 	if (c->network->linestack == NULL)
 		return;
 
+	if (lm == NULL)
+		lm = &start;
+
 	ns = linestack_get_state(c->network->linestack, lm);
 	if (ns != NULL) {
 		client_send_state(c, ns);
@@ -94,6 +103,11 @@ static void lastdisconnect_replicate(struct irc_client *c)
 				   c->network->global->config->report_time_offset);
 }
 
+static void lastdisconnect_replicate(struct irc_client *c)
+{
+	replicate_since(c, g_hash_table_lookup(lastdisconnect_backlog, c->network));
+}
+
 static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum data_direction dir, void *userdata)
 {
 	if(dir != TO_SERVER) return TRUE;
@@ -110,22 +124,7 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 
 static void simple_replicate(struct irc_client *c)
 {
-	linestack_marker m;
-	struct irc_network_state *ns;
-
-	if (c->network->linestack == NULL)
-		return;
-
-	m = g_hash_table_lookup(simple_backlog, c->network);
-	ns = linestack_get_state(c->network->linestack, m);
-	if (ns) {
-		client_send_state(c, ns);
-	}
-	free_network_state(ns);
-
-	linestack_send(c->network->linestack, m, NULL, c, FALSE,
-				   c->network->global->config->report_time != REPORT_TIME_NEVER,
-				   c->network->global->config->report_time_offset);
+	replicate_since(c, g_hash_table_lookup(simple_backlog, c->network));
 }
 
 static const struct replication_backend backends[] = {
-- 
2.43.0


From c713a86573a85a6f9856c80ea264fed6cd1f7de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:12 +0000
Subject: [PATCH 38/96] fix: forget from where to replay the backlog when the
 connection is lost

---
 src/admin.c         |  9 +++++++++
 src/internals.h     |  2 ++
 src/network.c       |  3 +++
 src/repl_backends.c | 13 +++++++++++++
 4 files changed, 27 insertions(+)

diff --git a/src/admin.c b/src/admin.c
index a750e9e..ed82dbb 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -584,6 +584,15 @@ static void cmd_die(admin_handle h, const char * const *args, void *userdata)
 
 static GHashTable *markers = NULL;
 
+/**
+ * Forget what part of the backlog of a network was shown already.
+ */
+void admin_forget_backlog(struct irc_network *n)
+{
+	if (markers != NULL)
+		g_hash_table_remove(markers, n);
+}
+
 static void cmd_backlog(admin_handle h, const char * const *args, void *userdata)
 {
 	linestack_marker lm;
diff --git a/src/internals.h b/src/internals.h
index 1da1693..0f6c58f 100644
--- a/src/internals.h
+++ b/src/internals.h
@@ -132,6 +132,8 @@ void global_update_config(struct global *my_global);
 
 /* repl.c */
 void client_replicate(struct irc_client *);
+void replication_forget_network(struct irc_network *n);
+void admin_forget_backlog(struct irc_network *n);
 
 gboolean init_replication(void);
 
diff --git a/src/network.c b/src/network.c
index 1878c50..566fbee 100644
--- a/src/network.c
+++ b/src/network.c
@@ -418,6 +418,9 @@ static void handle_network_disconnect(struct irc_network *n)
 		free_linestack_context(n->linestack);
 		n->linestack = NULL;
 	}
+	/* The next connection starts with an empty backlog */
+	replication_forget_network(n);
+	admin_forget_backlog(n);
 }
 
 static void handle_network_state_set(struct irc_network *s)
diff --git a/src/repl_backends.c b/src/repl_backends.c
index eba4a85..6f842c9 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -108,6 +108,19 @@ static void lastdisconnect_replicate(struct irc_client *c)
 	replicate_since(c, g_hash_table_lookup(lastdisconnect_backlog, c->network));
 }
 
+/**
+ * Forget from where to replay the backlog of a network.
+ */
+void replication_forget_network(struct irc_network *n)
+{
+	if (markers != NULL)
+		g_hash_table_remove(markers, n);
+	if (lastdisconnect_backlog != NULL)
+		g_hash_table_remove(lastdisconnect_backlog, n);
+	if (simple_backlog != NULL)
+		g_hash_table_remove(simple_backlog, n);
+}
+
 static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum data_direction dir, void *userdata)
 {
 	if(dir != TO_SERVER) return TRUE;
-- 
2.43.0


From b4e0d536bbe8d5764e17b14198dd921ff7da9898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:37 +0000
Subject: [PATCH 39/96] fix: don't take CTCP replies for something the user
 said when deciding what to replay

---
 src/repl_backends.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/repl_backends.c b/src/repl_backends.c
index 6f842c9..6c6de1b 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -128,6 +128,10 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 	if (base_strcmp(l->args[0], "PRIVMSG") &&
 		base_strcmp(l->args[0], "NOTICE")) return TRUE;
 
+	/* CTCP requests and replies are not something the user says */
+	if (l->argc > 2 && l->args[2][0] == '\001' &&
+		base_strncmp(l->args[2], "\001ACTION", 7) != 0) return TRUE;
+
 	if (n->linestack != NULL)
 		g_hash_table_replace(simple_backlog, irc_network_ref(n),
 							 linestack_get_marker(n->linestack));
-- 
2.43.0


From dfab44b71f2710f81531c240f69cea290dff8fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:40 +0000
Subject: [PATCH 40/96] fix: don't apply the line after which the backlog state
 is dumped twice

---
 libirc/linestack.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index dbc8ec7..b89570e 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -512,7 +512,6 @@ gboolean linestack_insert_line(struct linestack_context *nd,
 	gboolean needed = FALSE;
 	GError *error = NULL;
 	GIOStatus status;
-	gboolean ret;
 
 	if (nd == NULL) return TRUE;
 
@@ -541,12 +540,6 @@ gboolean linestack_insert_line(struct linestack_context *nd,
 		g_assert(strchr(l->args[i], '\r') == NULL);
 	}
 
-	if (nd->count >= nd->last_line_with_state + STATE_DUMP_INTERVAL) {
-		ret = file_insert_state(nd, state, nd->count);
-		if (ret == FALSE)
-			return FALSE;
-	}
-
 	if (!write_index_entry(nd->index_file,
 					  g_io_channel_tell_position(nd->line_file),
 					  time(NULL),
@@ -562,6 +555,13 @@ gboolean linestack_insert_line(struct linestack_context *nd,
 	}
 
 	nd->count++;
+
+	/* The state has been updated with this line already, so it is
+	 * the state before the next line. */
+	if (nd->count >= nd->last_line_with_state + STATE_DUMP_INTERVAL &&
+		!file_insert_state(nd, state, nd->count))
+		log_global(LOG_WARNING, "Unable to insert state");
+
 	return TRUE;
 }
 
-- 
2.43.0


From 88b03c400ac5c36d67c3a391b8d7f4c5de53822b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:18 +0000
Subject: [PATCH 41/96] fix: keep the backlog consistent when reading or
 writing its files fails

A failed or short write left the index and line file out of step, so that
everything stored afterwards was replayed wrongly, and a failed read left
the files positioned in the middle.
---
 libirc/linestack.c | 330 +++++++++++++++++++++------------------------
 1 file changed, 150 insertions(+), 180 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index b89570e..95d16c2 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -26,6 +26,7 @@
 #include "irc.h"
 #include <string.h>
 #include <fcntl.h>
+#include <unistd.h>
 #include <stdio.h>
 #include <errno.h>
 
@@ -38,10 +39,11 @@
  */
 struct linestack_context
 {
-	GIOChannel *line_file;
+	int line_file;
+	/* Where in the line file to write the next line */
+	guint64 line_end;
 	char *state_dir;
-	GIOChannel *state_file;
-	GIOChannel *index_file;
+	int index_file;
 	int count;
 	int last_line_with_state;
 
@@ -84,11 +86,65 @@ static gboolean marshall_network_state(enum marshall_mode m, GIOChannel *t,
 									   struct irc_network_state *n);
 
 
-static gint64 g_io_channel_tell_position(GIOChannel *gio)
+/**
+ * Write data at a specific position of a file.
+ */
+static gboolean write_at(int fd, const void *buf, size_t len, off_t offset)
+{
+	const char *data = buf;
+
+	while (len > 0) {
+		ssize_t ret = pwrite(fd, data, len, offset);
+		if (ret < 0 && errno == EINTR)
+			continue;
+		if (ret <= 0) {
+			log_global(LOG_ERROR, "Unable to write to linestack file: %s",
+					   ret < 0?strerror(errno):"No space left");
+			return FALSE;
+		}
+		data += ret;
+		len -= ret;
+		offset += ret;
+	}
+
+	return TRUE;
+}
+
+/**
+ * Read data from a specific position of a file.
+ */
+static gboolean read_at(int fd, void *buf, size_t len, off_t offset)
+{
+	char *data = buf;
+
+	while (len > 0) {
+		ssize_t ret = pread(fd, data, len, offset);
+		if (ret < 0 && errno == EINTR)
+			continue;
+		if (ret <= 0) {
+			log_global(LOG_ERROR, "Unable to read from linestack file: %s",
+					   ret < 0?strerror(errno):"Unexpected end of file");
+			return FALSE;
+		}
+		data += ret;
+		len -= ret;
+		offset += ret;
+	}
+
+	return TRUE;
+}
+
+static int open_data_file(const char *data_dir, const char *name,
+						  gboolean truncate)
 {
-	int fd = g_io_channel_unix_get_fd(gio);
-	g_io_channel_flush(gio, NULL);
-	return lseek(fd, 0, SEEK_CUR);
+	char *path = g_build_filename(data_dir, name, NULL);
+	int fd = open(path, O_RDWR | O_CREAT | (truncate?O_TRUNC:0), 0666);
+
+	if (fd < 0)
+		log_global(LOG_WARNING, "Error opening `%s': %s", path, strerror(errno));
+	g_free(path);
+
+	return fd;
 }
 
 struct linestack_context *create_linestack(const char *data_dir,
@@ -96,50 +152,21 @@ struct linestack_context *create_linestack(const char *data_dir,
 										   const struct irc_network_state *state)
 {
 	struct linestack_context *data = g_new0(struct linestack_context, 1);
-	char *data_file;
-	char *index_file, *state_file;
+	char *state_file;
 	GError *error = NULL;
 	const char *fname;
 	GDir *dir;
-	const char *mode;
 
 	g_mkdir(data_dir, 0700);
-	data_file = g_build_filename(data_dir, "lines", NULL);
-	g_assert(data_file != NULL);
-
-	if (truncate)
-		mode = "w+";
-	else
-		mode = "a+";
-
-	data->line_file = g_io_channel_new_file(data_file, mode, &error);
-	if (data->line_file == NULL) {
-		log_global(LOG_WARNING, "Error opening `%s': %s",
-						  data_file, error->message);
-		g_error_free(error);
-		g_free(data);
-		g_free(data_file);
-		return NULL;
-	}
-	g_free(data_file);
 
-	g_io_channel_set_encoding(data->line_file, NULL, NULL);
+	data->index_file = -1;
+	data->line_file = open_data_file(data_dir, "lines", truncate);
+	if (data->line_file < 0)
+		goto fail;
 
-	index_file = g_build_filename(data_dir, "index", NULL);
-	g_assert(index_file != NULL);
-
-	data->index_file = g_io_channel_new_file(index_file, mode, &error);
-	if (data->index_file == NULL) {
-		log_global(LOG_WARNING, "Error opening `%s': %s",
-						  index_file, error->message);
-		g_error_free(error);
-		g_free(index_file);
-		g_free(data);
-		return NULL;
-	}
-	g_free(index_file);
-
-	g_io_channel_set_encoding(data->index_file, NULL, NULL);
+	data->index_file = open_data_file(data_dir, "index", truncate);
+	if (data->index_file < 0)
+		goto fail;
 
 	state_file = g_build_filename(data_dir, "state", NULL);
 	unlink(state_file);
@@ -149,28 +176,18 @@ struct linestack_context *create_linestack(const char *data_dir,
 	g_mkdir(data->state_dir, 0755);
 
 	if (!truncate) {
-		GIOStatus status;
-		status = g_io_channel_seek_position(data->index_file, 0, G_SEEK_END,
-											&error);
-		if (status != G_IO_STATUS_NORMAL) {
-			log_global(LOG_WARNING, "Error seeking end of index file: %s",
-						  error->message);
-			g_error_free(error);
-			g_free(data);
-			return NULL;
+		off_t index_end, line_end;
+
+		index_end = lseek(data->index_file, 0, SEEK_END);
+		line_end = lseek(data->line_file, 0, SEEK_END);
+		if (index_end < 0 || line_end < 0) {
+			log_global(LOG_WARNING, "Error seeking end of linestack file: %s",
+						  strerror(errno));
+			goto fail;
 		}
 
-		status = g_io_channel_seek_position(data->line_file, 0, G_SEEK_END,
-											&error);
-		if (status != G_IO_STATUS_NORMAL) {
-			log_global(LOG_WARNING, "Error seeking end of line file: %s",
-						  error->message);
-			g_error_free(error);
-			g_free(data);
-			return NULL;
-		}
-
-		data->count = g_io_channel_tell_position(data->index_file) / INDEX_RECORD_SIZE;
+		data->count = index_end / INDEX_RECORD_SIZE;
+		data->line_end = line_end;
 
 		/* FIXME: Write the diff between the previously stored state and
 		 * the state to store now. */
@@ -180,8 +197,7 @@ struct linestack_context *create_linestack(const char *data_dir,
 			log_global(LOG_WARNING, "Error opening directory `%s': %s",
 							  data->state_dir, error->message);
 			g_error_free(error);
-			g_free(data);
-			return NULL;
+			goto fail;
 		}
 
 		while ((fname = g_dir_read_name(dir))) {
@@ -195,16 +211,21 @@ struct linestack_context *create_linestack(const char *data_dir,
 
 	if (!file_insert_state(data, state, 0)) {
 		log_global(LOG_WARNING, "Unable to insert state");
-		g_free(data);
-		return NULL;
+		goto fail;
 	}
 	return data;
+
+fail:
+	free_linestack_context(data);
+	return NULL;
 }
 
 void free_linestack_context(struct linestack_context *data)
 {
-	g_io_channel_unref(data->line_file);
-	g_io_channel_unref(data->index_file);
+	if (data->line_file >= 0)
+		close(data->line_file);
+	if (data->index_file >= 0)
+		close(data->index_file);
 	g_free(data->state_dir);
 	g_free(data);
 }
@@ -216,7 +237,6 @@ struct irc_network_state *linestack_get_state(
 	gint64 t;
 	guint64 state_index;
 	GError *error = NULL;
-	GIOStatus status;
 	char *data_file;
 	GIOChannel *state_file;
 
@@ -225,38 +245,16 @@ struct irc_network_state *linestack_get_state(
 	if (nd == NULL)
 		return NULL;
 
-	/* Flush channel before reading otherwise data corruption may occur */
-	status = g_io_channel_flush(nd->line_file, &error);
-	LF_CHECK_IO_STATUS(status);
-
-	status = g_io_channel_flush(nd->index_file, &error);
-	LF_CHECK_IO_STATUS(status);
-
 	if (to_index != NULL && *to_index == 0) {
 		/* Nothing happened yet */
 		state_index = 0;
 	} else if (to_index != NULL) {
 		t = (*to_index)-1;
-		status = g_io_channel_seek_position(nd->index_file,
-			t * INDEX_RECORD_SIZE + sizeof(guint64) + sizeof(time_t),
-			G_SEEK_SET, &error);
-		LF_CHECK_IO_STATUS(status);
-		status = g_io_channel_read_chars(nd->index_file, (void *)&state_index,
-										 sizeof(guint64), NULL, &error);
-		if (status == G_IO_STATUS_ERROR) {
-			log_global(LOG_ERROR, "Unable to ready entry %"PRIi64" in index: %s",
-					   t, error->message);
-			g_error_free(error);
-			return NULL;
-		} else if (status == G_IO_STATUS_EOF) {
-			log_global(LOG_ERROR, "EOF reading entry %"PRIi64" in index", t);
+		if (!read_at(nd->index_file, &state_index, sizeof(guint64),
+					 t * INDEX_RECORD_SIZE + sizeof(guint64) + sizeof(time_t))) {
+			log_global(LOG_ERROR, "Unable to read entry %"PRIi64" in index", t);
 			return NULL;
 		}
-
-		/* Go back to the end of the index file */
-		status = g_io_channel_seek_position(nd->index_file, 0, G_SEEK_END,
-											&error);
-		LF_CHECK_IO_STATUS(status);
 	} else {
 		state_index = nd->last_line_with_state;
 	}
@@ -300,59 +298,44 @@ gboolean linestack_read_entry(struct linestack_context *nd,
 							  time_t *time
 							 )
 {
-	guint64 offset;
-	GError *error = NULL;
-	gchar *raw = NULL;
-	GIOStatus status;
+	guint64 offset, end = nd->line_end;
+	gchar *raw;
 
-	status = g_io_channel_seek_position(nd->index_file,
-										i * INDEX_RECORD_SIZE,
-										G_SEEK_SET, &error);
-	if (status != G_IO_STATUS_NORMAL) {
-		log_global(LOG_WARNING, "seeking line %"PRIi64" in index failed: %s", i,
-				   error->message);
-		g_error_free(error);
+	if (i >= nd->count)
 		return FALSE;
-	}
 
-	status = g_io_channel_read_chars(nd->index_file, (void *)&offset,
-									 sizeof(guint64), NULL, &error);
-	if (status != G_IO_STATUS_NORMAL) {
-		log_global(LOG_WARNING, "reading line %"PRIi64" in index failed: %s", i,
-				   error->message);
-		g_error_free(error);
+	if (!read_at(nd->index_file, &offset, sizeof(guint64),
+				 i * INDEX_RECORD_SIZE) ||
+		!read_at(nd->index_file, time, sizeof(time_t),
+				 i * INDEX_RECORD_SIZE + sizeof(guint64))) {
+		log_global(LOG_WARNING, "reading line %"PRIi64" in index failed", i);
 		return FALSE;
 	}
 
-	status = g_io_channel_read_chars(nd->index_file, (void *)time,
-									 sizeof(time_t), NULL, &error);
-	if (status != G_IO_STATUS_NORMAL) {
-		log_global(LOG_WARNING, "reading time %"PRIi64" in index failed: %s", i,
-				   error->message);
-		g_error_free(error);
+	/* The line extends to where the next one starts */
+	if (i + 1 < nd->count &&
+		!read_at(nd->index_file, &end, sizeof(guint64),
+				 (i + 1) * INDEX_RECORD_SIZE)) {
+		log_global(LOG_WARNING, "reading line %"PRIi64" in index failed", i + 1);
 		return FALSE;
 	}
 
-	status = g_io_channel_seek_position(nd->line_file, offset, G_SEEK_SET,
-										&error);
-	if (status != G_IO_STATUS_NORMAL) {
-		log_global(LOG_WARNING, "seeking line %"PRIi64" (%"PRIi64") in data failed: %s",
-				   i, offset, error->message);
-		g_error_free(error);
+	if (end < offset)
 		return FALSE;
-	}
 
-	status = g_io_channel_read_line(nd->line_file, &raw, NULL, NULL, &error);
-	if (status == G_IO_STATUS_ERROR) {
-		log_global(LOG_WARNING, "read_line() failed: %s", error->message);
-		g_error_free(error);
+	raw = g_malloc(end - offset + 1);
+	if (!read_at(nd->line_file, raw, end - offset, offset)) {
+		log_global(LOG_WARNING, "reading line %"PRIi64" (%"PRIi64") in data failed",
+				   i, offset);
+		g_free(raw);
 		return FALSE;
 	}
+	raw[end - offset] = '\0';
 
 	*line = irc_parse_line(raw);
 	g_free(raw);
 
-	return TRUE;
+	return *line != NULL;
 }
 
 gboolean linestack_traverse(struct linestack_context *nd,
@@ -361,8 +344,6 @@ gboolean linestack_traverse(struct linestack_context *nd,
 {
 	gint64 start_index, end_index;
 	gboolean ret = TRUE;
-	GError *error = NULL;
-	GIOStatus status = G_IO_STATUS_NORMAL;
 	struct irc_line *l;
 	time_t time;
 	guint64 i;
@@ -370,11 +351,6 @@ gboolean linestack_traverse(struct linestack_context *nd,
 	if (nd == NULL)
 		return FALSE;
 
-	/* Flush channel before reading otherwise data corruption may occur */
-	g_io_channel_flush(nd->line_file, &error);
-
-	g_io_channel_flush(nd->index_file, &error);
-
 	if (lm_from == NULL) {
 		start_index = 0;
 	} else {
@@ -396,12 +372,6 @@ gboolean linestack_traverse(struct linestack_context *nd,
 		if (!ret) break;
 	}
 
-	status = g_io_channel_seek_position(nd->line_file, 0, G_SEEK_END, &error);
-	LF_CHECK_IO_STATUS(status);
-
-	status = g_io_channel_seek_position(nd->index_file, 0, G_SEEK_END, &error);
-	LF_CHECK_IO_STATUS(status);
-
 	return ret;
 }
 
@@ -483,35 +453,47 @@ static const char *linestack_messages[] = {
 	"329", /* RPL_CREATIONTIME */
 	NULL };
 
-gboolean write_index_entry(GIOChannel *ioc, guint64 line_offset, time_t time,
-					   guint64 state_line_index)
+/**
+ * Append a line. The files are only considered to be extended once everything
+ * has been written, so a failure leaves things as they were.
+ */
+static gboolean append_line(struct linestack_context *nd,
+							const struct irc_line *l)
 {
-	GError *error = NULL;
-	GIOStatus status;
+	char record[INDEX_RECORD_SIZE];
+	guint64 state_index = nd->last_line_with_state;
+	time_t now = time(NULL);
+	char *raw;
+	size_t len;
+	gboolean ret;
 
-	status = g_io_channel_write_chars(ioc, (void *)&line_offset, sizeof(guint64), NULL,
-									  &error);
-	LF_CHECK_IO_STATUS(status);
+	raw = irc_line_string_nl(l);
+	len = strlen(raw);
 
-	status = g_io_channel_write_chars(ioc, (void *)&time, sizeof(time_t), NULL, &error);
-	LF_CHECK_IO_STATUS(status);
+	memcpy(record, &nd->line_end, sizeof(guint64));
+	memcpy(record + sizeof(guint64), &now, sizeof(time_t));
+	memcpy(record + sizeof(guint64) + sizeof(time_t), &state_index,
+		   sizeof(guint64));
 
-	status = g_io_channel_write_chars(ioc, (void *)&state_line_index, sizeof(guint64),
-									  NULL, &error);
-	LF_CHECK_IO_STATUS(status);
+	ret = write_at(nd->line_file, raw, len, nd->line_end) &&
+		write_at(nd->index_file, record, sizeof(record),
+				 (off_t)nd->count * INDEX_RECORD_SIZE);
+	g_free(raw);
+	if (!ret)
+		return FALSE;
+
+	nd->line_end += len;
+	nd->count++;
 
 	return TRUE;
 }
 
-
 gboolean linestack_insert_line(struct linestack_context *nd,
 							   const struct irc_line *l, enum data_direction dir,
 							   const struct irc_network_state *state)
 {
 	int i;
 	gboolean needed = FALSE;
-	GError *error = NULL;
-	GIOStatus status;
 
 	if (nd == NULL) return TRUE;
 
@@ -540,21 +522,8 @@ gboolean linestack_insert_line(struct linestack_context *nd,
 		g_assert(strchr(l->args[i], '\r') == NULL);
 	}
 
-	if (!write_index_entry(nd->index_file,
-					  g_io_channel_tell_position(nd->line_file),
-					  time(NULL),
-					  nd->last_line_with_state))
-		return FALSE;
-
-	status = irc_send_line(nd->line_file, (GIConv)-1, l, &error);
-
-	if (status != G_IO_STATUS_NORMAL) {
-		log_global(LOG_ERROR, "Unable to write to linestack file: %s", error->message);
-		g_error_free(error);
+	if (!append_line(nd, l))
 		return FALSE;
-	}
-
-	nd->count++;
 
 	/* The state has been updated with this line already, so it is
 	 * the state before the next line. */
@@ -1107,16 +1076,17 @@ static gboolean file_insert_state(struct linestack_context *nd,
 
 	g_io_channel_set_encoding(state_file, NULL, NULL);
 
-	nd->last_line_with_state = nd->count;
-
-	marshall_network_state(MARSHALL_PUSH, state_file, (struct irc_network_state *)state);
+	if (!marshall_network_state(MARSHALL_PUSH, state_file, (struct irc_network_state *)state)) {
+		log_global(LOG_ERROR, "Unable to write state to linestack");
+		g_io_channel_unref(state_file);
+		return FALSE;
+	}
 
 	status = g_io_channel_flush(state_file, &error);
+	g_io_channel_unref(state_file);
 	LF_CHECK_IO_STATUS(status);
 
-	g_io_channel_unref(state_file);
+	nd->last_line_with_state = nd->count;
 
 	return TRUE;
 }
-
-
-- 
2.43.0


From b7e79ea394cdcf31a735d9797c3d3fe27ca9eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:57 +0000
Subject: [PATCH 42/96] fix: replay the current state when the state stored
 with the backlog can't be read

Reading a state file that is missing, cut short or otherwise unreadable
used to end in a crash or in the client being told nothing.
---
 libirc/linestack.c  | 85 ++++++++++++++++++++++++++++-----------------
 src/repl_backends.c |  7 ++--
 2 files changed, 59 insertions(+), 33 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 95d16c2..2e13b24 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -59,7 +59,7 @@ struct linestack_context
 #define STATE_DUMP_INTERVAL 1000
 
 #define LF_CHECK_IO_STATUS(status)	if (status != G_IO_STATUS_NORMAL) { \
-		log_global(LOG_ERROR, "%s:%d: Unable to write to linestack file: %s", \
+		log_global(LOG_ERROR, "%s:%d: Unable to access linestack file: %s", \
 				   __FILE__, __LINE__, error != NULL?error->message:"Unknown"); \
 		if (error != NULL) g_error_free(error); \
 		return FALSE; \
@@ -275,7 +275,9 @@ struct irc_network_state *linestack_get_state(
 
 	ret = network_state_init("", "", "");
 	if (!marshall_network_state(MARSHALL_PULL, state_file, ret)) {
+		log_global(LOG_WARNING, "Unable to read state from linestack");
 		g_io_channel_unref(state_file);
+		free_network_state(ret);
 		return NULL;
 	}
 
@@ -651,7 +653,7 @@ gboolean linestack_replay(struct linestack_context *ctx,
 }
 
 
-#define marshall_new(m,t) if ((m) == MARSHALL_PULL) *(t) = g_malloc(sizeof(**t));
+#define marshall_new(m,t) if ((m) == MARSHALL_PULL) *(t) = g_malloc0(sizeof(**t));
 
 static const char tabs[10] = {'\t', '\t', '\t', '\t', '\t',
 			       '\t', '\t', '\t', '\t', '\t' };
@@ -690,18 +692,25 @@ static GIOStatus marshall_set (GIOChannel *t, int level, const char *name, const
 
 static gboolean marshall_get (GIOChannel *t, int level, const char *name, char **value)
 {
-	char *line;
+	char *line = NULL;
 	GIOStatus status;
 	GError *error = NULL;
 	gsize term;
 
+	*value = NULL;
+
 	status = g_io_channel_read_line(t, &line, NULL, &term, &error);
 	LF_CHECK_IO_STATUS(status);
 
-	line[term] = '\0';
+	/* Every line is complete, unless the file was cut short */
+	if (line[term] == '\0' || strncmp(line, tabs, level) != 0 ||
+		strncmp(line+level, name, strlen(name)) != 0) {
+		log_global(LOG_ERROR, "Unexpected line in linestack state file");
+		g_free(line);
+		return FALSE;
+	}
 
-	g_assert(strncmp(line, tabs, level) == 0);
-	g_assert(strncmp(line+level, name, strlen(name)) == 0);
+	line[term] = '\0';
 
 	if (line[level+strlen(name)] == ':') {
 		*value = g_strdup(line+level+strlen(name)+2);
@@ -726,7 +735,10 @@ static gboolean marshall_struct(GIOChannel *t, enum marshall_mode m, int level,
 		char *v;
 		gboolean ret = marshall_get(t, level, name, &v);
 		if (!ret) return FALSE;
-		if (v != NULL) return FALSE;
+		if (v != NULL) {
+			g_free(v);
+			return FALSE;
+		}
 		return TRUE;
 	}
 }
@@ -759,7 +771,7 @@ static gboolean marshall_bool(struct irc_network_state *nst, const char *name,
 		gboolean ret;
 		char *val;
 		ret = marshall_get(t, level, name, &val);
-		if (!ret) return FALSE;
+		if (!ret || val == NULL) return FALSE;
 
 		if (!strcmp(val, "true")) { *n = TRUE; g_free(val); return TRUE; }
 		if (!strcmp(val, "false")) { *n = FALSE; g_free(val); return TRUE; }
@@ -780,7 +792,7 @@ static gboolean marshall_char(struct irc_network_state *nst, const char *name, i
 	} else {
 		char *d;
 		gboolean ret = marshall_get(t, level, name, &d);
-		if (!ret) return FALSE;
+		if (!ret || d == NULL) return FALSE;
 
 		*n = d[0];
 
@@ -802,7 +814,7 @@ static gboolean marshall_int(struct irc_network_state *nst, const char *name, in
 	} else {
 		char *tmp;
 		gboolean ret = marshall_get(t, level, name, &tmp);
-		if (!ret) return FALSE;
+		if (!ret || tmp == NULL) return FALSE;
 
 		*n = atoi(tmp);
 
@@ -824,7 +836,7 @@ static gboolean marshall_time(struct irc_network_state *nst, const char *name, i
 	} else {
 		char *tmp;
 		gboolean ret = marshall_get(t, level, name, &tmp);
-		if (!ret) return FALSE;
+		if (!ret || tmp == NULL) return FALSE;
 
 		*n = strtol(tmp, NULL, 0);
 
@@ -856,11 +868,13 @@ static gboolean marshall_modes(struct irc_network_state *nst, const char *name,
 static gboolean marshall_network_nick (struct irc_network_state *nst, const char *name, int level, enum marshall_mode m, GIOChannel *t, struct network_nick *n)
 {
 	gboolean ret = TRUE;
-	marshall_struct(t, m, level, name);
+	if (!marshall_struct(t, m, level, name))
+		return FALSE;
 	ret &= marshall_bool(nst, "query", level+1, m, t, &n->query);
 	ret &= marshall_modes(nst, "modes", level+1, m, t, n->modes);
 	ret &= marshall_string(nst, "nick", level+1, m, t, &n->nick);
-	g_assert(n->nick);
+	if (n->nick == NULL)
+		return FALSE;
 	ret &= marshall_string(nst, "fullname", level+1, m, t, &n->fullname);
 	ret &= marshall_string(nst, "username", level+1, m, t, &n->username);
 	ret &= marshall_string(nst, "hostname", level+1, m, t, &n->hostname);
@@ -888,15 +902,17 @@ struct ht_traverse_data
 
 static gboolean marshall_GList (struct irc_network_state *nst, const char *name, int level, enum marshall_mode m, GIOChannel *t, GList **gl, marshall_fn_t marshall_fn)
 {
-	marshall_struct(t, m, level, name);
+	if (!marshall_struct(t, m, level, name))
+		return FALSE;
 	if (m == MARSHALL_PULL) {
 		int count;
 		int i;
 
-		marshall_int(nst, "count", level+1, m, t, &count);
-
 		*gl = NULL;
 
+		if (!marshall_int(nst, "count", level+1, m, t, &count))
+			return FALSE;
+
 		for (i = 0; i < count; i++) {
 			void *v;
 			char name[20];
@@ -910,7 +926,8 @@ static gboolean marshall_GList (struct irc_network_state *nst, const char *name,
 		int i = 0;
 		GList *l;
 
-		marshall_int(nst, "count", level+1, m, t, &count);
+		if (!marshall_int(nst, "count", level+1, m, t, &count))
+			return FALSE;
 
 		for (l = *gl; l; l = l->next) {
 			char name[20];
@@ -928,7 +945,8 @@ static gboolean marshall_nicklist_entry (struct irc_network_state *nst, const ch
 {
 	gboolean ret = TRUE;
 	marshall_new(m, d);
-	marshall_struct(t, m, level, name);
+	if (!marshall_struct(t, m, level, name))
+		return FALSE;
 	ret &= marshall_time(nst, "time", level+1, m, t, &(*d)->time_set);
 	ret &= marshall_string(nst, "hostmask", level+1, m, t, &(*d)->hostmask);
 	ret &= marshall_string(nst, "by", level+1, m, t, &(*d)->by);
@@ -943,7 +961,8 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 	int i;
 	gboolean ret = TRUE;
 	marshall_new(m, c);
-	marshall_struct(t, m, level, name);
+	if (!marshall_struct(t, m, level, name))
+		return FALSE;
 
 	ret &= marshall_char(nst, "mode", level+1, m, t, &((*c)->mode));
 	ret &= marshall_modes(nst, "modes", level+1, m, t, (*c)->modes);
@@ -964,7 +983,8 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 	}
 	(*c)->network = nst;
 
-	marshall_struct(t, m, level+1, "nicks");
+	if (!ret || (*c)->name == NULL || !marshall_struct(t, m, level+1, "nicks"))
+		return FALSE;
 
 	/* Nicks  */
 	if (m == MARSHALL_PULL) {
@@ -973,7 +993,8 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 
 		(*c)->nicks = NULL;
 
-		marshall_int(nst, "count", level+2, m, t, &count);
+		if (!marshall_int(nst, "count", level+2, m, t, &count))
+			return FALSE;
 
 		for (i = 0; i < count; i++) {
 			struct channel_nick *cn;
@@ -981,9 +1002,11 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 			char tmp[10];
 			g_snprintf(tmp, sizeof(tmp), "[%d]", i);
 
-			marshall_struct(t, m, level+2, tmp);
+			if (!marshall_struct(t, m, level+2, tmp))
+				return FALSE;
 
-			if (!marshall_string(nst, "nick", level+3, m, t, &nick))
+			if (!marshall_string(nst, "nick", level+3, m, t, &nick) ||
+				nick == NULL)
 				return FALSE;
 
 			cn = find_add_channel_nick(*c, nick);
@@ -1000,13 +1023,15 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 		int i = 0;
 		GList *l;
 
-		marshall_int(nst, "count", level+2, m, t, &count);
+		if (!marshall_int(nst, "count", level+2, m, t, &count))
+			return FALSE;
 
 		for (l = (*c)->nicks; l; l = l->next) {
 			struct channel_nick *cn = l->data;
 			g_snprintf(tmp, sizeof(tmp), "[%d]", i);
 
-			marshall_struct(t, m, level+2, tmp);
+			if (!marshall_struct(t, m, level+2, tmp))
+				return FALSE;
 
 			if (!marshall_string(nst, "nick", level+3, m, t, &cn->global_nick->nick))
 				return FALSE;
@@ -1024,17 +1049,15 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 static gboolean marshall_network_state(enum marshall_mode m, GIOChannel *t,
 									   struct irc_network_state *n)
 {
-	gboolean ret = TRUE;
+	gboolean ret;
 
 	if (m == MARSHALL_PULL) {
 		g_free(n->me.hostmask);
 		n->me.hostmask = NULL;
 	}
-	ret &= marshall_network_nick(n, "me", 0, m, t, &n->me);
-	ret &= marshall_GList(n, "nicks", 0, m, t, &n->nicks, (marshall_fn_t)marshall_network_nick_p);
-	ret &= marshall_GList(n, "channels", 0, m, t, &n->channels, (marshall_fn_t)marshall_channel_state);
-
-	g_assert(n->me.nick);
+	ret = marshall_network_nick(n, "me", 0, m, t, &n->me) &&
+		marshall_GList(n, "nicks", 0, m, t, &n->nicks, (marshall_fn_t)marshall_network_nick_p) &&
+		marshall_GList(n, "channels", 0, m, t, &n->channels, (marshall_fn_t)marshall_channel_state);
 
 	return ret;
 }
diff --git a/src/repl_backends.c b/src/repl_backends.c
index 6c6de1b..e3edd16 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -95,12 +95,15 @@ static void replicate_since(struct irc_client *c, linestack_marker lm)
 	ns = linestack_get_state(c->network->linestack, lm);
 	if (ns != NULL) {
 		client_send_state(c, ns);
+	} else if (c->network->external_state != NULL) {
+		/* Only the messages make sense on top of the current state */
+		client_send_state(c, c->network->external_state);
 	}
-	free_network_state(ns);
 
-	linestack_send(c->network->linestack, lm, NULL, c, FALSE,
+	linestack_send(c->network->linestack, lm, NULL, c, ns == NULL,
 				   c->network->global->config->report_time != REPORT_TIME_NEVER,
 				   c->network->global->config->report_time_offset);
+	free_network_state(ns);
 }
 
 static void lastdisconnect_replicate(struct irc_client *c)
-- 
2.43.0


From 6bd215b34564d372c8e207252fd5ef257a2a59a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:23 +0000
Subject: [PATCH 43/96] fix: end lines only at line feeds

Anyone could have the user's proxy take part of a message for a separate
line from the server, by including a Unicode paragraph separator in it.
---
 libirc/line.c      | 4 ++++
 libirc/linestack.c | 1 +
 2 files changed, 5 insertions(+)

diff --git a/libirc/line.c b/libirc/line.c
index 6f2de1b..24f1cd6 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -389,6 +389,10 @@ GIOStatus irc_recv_line(GIOChannel *c, GIConv iconv,
 
 	g_assert(c);
 
+	/* Left to itself, GLib would also end lines at NULs, lone CRs and Unicode
+	 * paragraph separators. */
+	g_io_channel_set_line_term(c, "\n", 1);
+
 	status = g_io_channel_read_line(c, &raw, &in_len, &term_pos, error);
 	if (status != G_IO_STATUS_NORMAL) {
 		g_free(raw);
diff --git a/libirc/linestack.c b/libirc/linestack.c
index 2e13b24..27a53c6 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -272,6 +272,7 @@ struct irc_network_state *linestack_get_state(
 	g_free(data_file);
 
 	g_io_channel_set_encoding(state_file, NULL, NULL);
+	g_io_channel_set_line_term(state_file, "\n", 1);
 
 	ret = network_state_init("", "", "");
 	if (!marshall_network_state(MARSHALL_PULL, state_file, ret)) {
-- 
2.43.0


From 6c7ccf447919b40cfa574ddb7a7813a8cf718f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:50 +0000
Subject: [PATCH 44/96] fix: don't abort when the backlog can't be created

---
 libirc/connection.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index 167b18c..d385601 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -54,7 +54,6 @@ static void server_send_login (struct irc_network *s)
 	network_state_set_log_fn(s->external_state, state_log_helper, s);
 	if (s->callbacks->state_set)
 		s->callbacks->state_set(s);
-	g_assert(s->linestack != NULL);
 
 	if (login_details->password != NULL) {
 		network_send_args(s, "PASS", login_details->password, NULL);
-- 
2.43.0


From bb4a7d321ce105faae4f0bf3914b7cde260dcaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:59 +0000
Subject: [PATCH 45/96] fix: don't reconstruct the state for a replay when
 lines in between could not be stored

---
 libirc/linestack.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 27a53c6..419a6dc 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -46,7 +46,8 @@ struct linestack_context
 	int index_file;
 	int count;
 	int last_line_with_state;
-
+	/* Number of the line that was to be stored when storing last failed */
+	int last_failure;
 };
 
 /* Index file format
@@ -160,6 +161,7 @@ struct linestack_context *create_linestack(const char *data_dir,
 	g_mkdir(data_dir, 0700);
 
 	data->index_file = -1;
+	data->last_failure = -1;
 	data->line_file = open_data_file(data_dir, "lines", truncate);
 	if (data->line_file < 0)
 		goto fail;
@@ -259,6 +261,11 @@ struct irc_network_state *linestack_get_state(
 		state_index = nd->last_line_with_state;
 	}
 
+	if ((gint64)state_index <= nd->last_failure) {
+		log_global(LOG_WARNING, "Unable to determine state, lines are missing");
+		return NULL;
+	}
+
 	data_file = state_path(nd, state_index);
 
 	state_file = g_io_channel_new_file(data_file, "r", &error);
@@ -525,12 +532,15 @@ gboolean linestack_insert_line(struct linestack_context *nd,
 		g_assert(strchr(l->args[i], '\r') == NULL);
 	}
 
-	if (!append_line(nd, l))
+	if (!append_line(nd, l)) {
+		nd->last_failure = nd->count;
 		return FALSE;
+	}
 
 	/* The state has been updated with this line already, so it is
 	 * the state before the next line. */
-	if (nd->count >= nd->last_line_with_state + STATE_DUMP_INTERVAL &&
+	if ((nd->count >= nd->last_line_with_state + STATE_DUMP_INTERVAL ||
+		 nd->last_line_with_state <= nd->last_failure) &&
 		!file_insert_state(nd, state, nd->count))
 		log_global(LOG_WARNING, "Unable to insert state");
 
-- 
2.43.0


From 8776715264eb56918d429413e3ec883868e852ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:00 +0000
Subject: [PATCH 46/96] fix: ignore topic changes of channels the user is not
 on

---
 libirc/state.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libirc/state.c b/libirc/state.c
index 3611a3e..bdd5a41 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -611,6 +611,12 @@ static void handle_topic(struct irc_network_state *s, const struct irc_line *l)
 
 	CHECK_ORIGIN(s, l, "TOPIC");
 
+	if (c == NULL) {
+		network_state_log(LOG_WARNING, s,
+				"Can't set topic for unknown channel '%s'!", l->args[1]);
+		return;
+	}
+
 	if (c->topic != NULL) {
 		g_free(c->topic);
 	}
-- 
2.43.0


From cb5c219497b18634a3925213eda87659a56c65cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:56 +0000
Subject: [PATCH 47/96] fix: show the current state when the backlog can't be
 read completely

A client was left with the state at whatever point reading failed.
---
 src/repl_backends.c | 52 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/repl_backends.c b/src/repl_backends.c
index e3edd16..ed39277 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -75,6 +75,22 @@ static void lastdisconnect_mark(struct irc_client *c, void *userdata)
 							 linestack_get_marker(c->network->linestack));
 }
 
+struct stored_line {
+	struct irc_line *line;
+	time_t time;
+};
+
+static gboolean collect_line(struct irc_line *l, time_t t, void *userdata)
+{
+	GList **lines = userdata;
+	struct stored_line *sl = g_new0(struct stored_line, 1);
+
+	sl->line = linedup(l);
+	sl->time = t;
+	*lines = g_list_prepend(*lines, sl);
+	return TRUE;
+}
+
 /**
  * Send what happened since a particular moment.
  *
@@ -83,8 +99,12 @@ static void lastdisconnect_mark(struct irc_client *c, void *userdata)
  */
 static void replicate_since(struct irc_client *c, linestack_marker lm)
 {
+	struct ctrlproxy_config *cfg = c->network->global->config;
+	gboolean timed = cfg->report_time != REPORT_TIME_NEVER;
 	struct irc_network_state *ns;
+	GList *lines = NULL;
 	guint64 start = 0;
+	gboolean complete;
 
 	if (c->network->linestack == NULL)
 		return;
@@ -92,18 +112,38 @@ static void replicate_since(struct irc_client *c, linestack_marker lm)
 	if (lm == NULL)
 		lm = &start;
 
+	/* Make sure everything can be read, as the client would end up with the
+	 * state at some point in the past otherwise. */
 	ns = linestack_get_state(c->network->linestack, lm);
-	if (ns != NULL) {
+	complete = linestack_traverse(c->network->linestack, lm, NULL,
+								  collect_line, &lines) && ns != NULL;
+	lines = g_list_reverse(lines);
+
+	if (complete) {
 		client_send_state(c, ns);
 	} else if (c->network->external_state != NULL) {
-		/* Only the messages make sense on top of the current state */
+		client_log(LOG_WARNING, c, "Unable to replay the complete backlog");
 		client_send_state(c, c->network->external_state);
 	}
-
-	linestack_send(c->network->linestack, lm, NULL, c, ns == NULL,
-				   c->network->global->config->report_time != REPORT_TIME_NEVER,
-				   c->network->global->config->report_time_offset);
 	free_network_state(ns);
+
+	while (lines != NULL) {
+		struct stored_line *sl = lines->data;
+		gboolean message = (!base_strcmp(sl->line->args[0], "PRIVMSG") ||
+							!base_strcmp(sl->line->args[0], "NOTICE")) &&
+			sl->line->argc > 2;
+
+		if (message && timed)
+			line_prefix_time(sl->line, sl->time + cfg->report_time_offset);
+
+		/* Only the messages make sense on top of the current state */
+		if (complete || message)
+			client_send_line(c, sl->line, NULL);
+
+		free_line(sl->line);
+		g_free(sl);
+		lines = g_list_delete_link(lines, lines);
+	}
 }
 
 static void lastdisconnect_replicate(struct irc_client *c)
-- 
2.43.0


From 747904661a637736a6853b5309b7d5979236b746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:35 +0000
Subject: [PATCH 48/96] Allow the state dump interval of the linestack to be
 set when compiling

---
 libirc/linestack.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 419a6dc..4847bb1 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -57,7 +57,9 @@ struct linestack_context
  */
 
 #define INDEX_RECORD_SIZE (sizeof(guint64) + sizeof(time_t) + sizeof(guint64))
+#ifndef STATE_DUMP_INTERVAL
 #define STATE_DUMP_INTERVAL 1000
+#endif
 
 #define LF_CHECK_IO_STATUS(status)	if (status != G_IO_STATUS_NORMAL) { \
 		log_global(LOG_ERROR, "%s:%d: Unable to access linestack file: %s", \
-- 
2.43.0


From a65bb8a85323d42f96f2326636dc265b0a87983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:11 +0000
Subject: [PATCH 49/96] fix: don't let everybody in on a listener that only
 lists users

The SOCKS listener ("[socks] allow=...") checked the listed users, and
if none matched and there was no password at all in the configuration
it accepted the peer without authentication.
---
 src/listener.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/listener.c b/src/listener.c
index 0c2281a..68a3f13 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -81,6 +81,10 @@ static gboolean listener_check_username_password(struct irc_listener *listener,
 		return (strcmp(listener->global->config->password, password) == 0);
 	}
 
+	/* Only the users that are listed may connect */
+	if (listener->config != NULL && listener->config->allow_rules != NULL)
+		return FALSE;
+
 	listener_log(LOG_WARNING, listener, "No password set, allowing client _without_ authentication!");
 	return TRUE;
 }
-- 
2.43.0


From ff1ce6dc6808368dfb16fda900f7a675ce75491f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:51 +0000
Subject: [PATCH 50/96] fix: drop half-open connections along with the listener
 they came in on

---
 libirc/listener.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libirc/listener.c b/libirc/listener.c
index 09bbb00..296b427 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -157,6 +157,9 @@ gboolean listener_stop(struct irc_listener *l)
 		l->incoming = g_list_remove(l->incoming, lio);
 	}
 
+	while (l->pending != NULL)
+		kill_pending_client(l->pending->data);
+
 	return TRUE;
 }
 
-- 
2.43.0


From a5094b89575903c3879deb3b2968a03cb32d0cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:53 +0000
Subject: [PATCH 51/96] fix: don't use listeners after freeing them in
 STOPLISTENER

---
 src/admin.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index ed82dbb..8d6b3d7 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1069,7 +1069,7 @@ static void cmd_start_listener(admin_handle h, const char * const *args, void *u
 
 static void cmd_stop_listener(admin_handle h, const char * const *args, void *userdata)
 {
-	GList *gl;
+	GList *gl, *next;
 	char *b, *p;
 	int i = 0;
 
@@ -1087,9 +1087,16 @@ static void cmd_stop_listener(admin_handle h, const char * const *args, void *us
 		b = NULL;
 	}
 
-	for (gl = admin_get_global(h)->listeners; gl; gl = gl->next) {
+	for (gl = admin_get_global(h)->listeners; gl; gl = next) {
 		struct irc_listener *l = gl->data;
 
+		next = gl->next;
+
+		/* The socket in the configuration directory has no port */
+		if (l->config == NULL) {
+			continue;
+		}
+
 		if (b && l->config->address == NULL) {
 			continue;
 		}
@@ -1119,6 +1126,10 @@ static void cmd_list_listener(admin_handle h, const char * const *args, void *us
 	for (gl = admin_get_global(h)->listeners; gl; gl = gl->next) {
 		struct irc_listener *l = gl->data;
 
+		if (l->config == NULL) {
+			continue;
+		}
+
 		admin_out(h, "%s:%s%s%s%s", l->config->address?l->config->address:"", l->config->port,
 				  l->network?" (":"", l->network?l->network->name:"",
 				  l->network?")":"");
-- 
2.43.0


From 7d1f43342cae697e6040ec28f7f5ece993b860e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:20 +0000
Subject: [PATCH 52/96] fix: say whether STARTLISTENER worked, and don't keep
 listeners that failed

---
 src/admin.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/admin.c b/src/admin.c
index 8d6b3d7..a308912 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1064,7 +1064,12 @@ static void cmd_start_listener(admin_handle h, const char * const *args, void *u
 	l = listener_init(admin_get_global(h), cfg);
 	l->global = admin_get_global(h);
 
-	listener_start_tcp(l, l->config->address, l->config->port);
+	if (listener_start_tcp(l, l->config->address, l->config->port)) {
+		admin_out(h, "Listening on `%s'", args[1]);
+	} else {
+		admin_out(h, "Unable to listen on `%s'", args[1]);
+		free_listener(l);
+	}
 }
 
 static void cmd_stop_listener(admin_handle h, const char * const *args, void *userdata)
-- 
2.43.0


From 4200e12faac868ebe0c61ea46ebec73c1b04b8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:22 +0000
Subject: [PATCH 53/96] fix: handle all commands sent to the admin socket, and
 its end

---
 src/admin.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index a308912..df709a1 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1814,12 +1814,13 @@ static gboolean handle_client_data(GIOChannel *channel,
 
 	ah.global = _global;
 	ah.client = NULL;
+	ah.network = NULL;
 	ah.user_data = channel;
 	ah.send_fn = iochannel_admin_out;
 
 	if (condition & G_IO_IN) {
-		status = g_io_channel_read_line(channel, &raw, NULL, &eol, &error);
-		if (status == G_IO_STATUS_NORMAL) {
+		/* Several lines may have come in at once */
+		while ((status = g_io_channel_read_line(channel, &raw, NULL, &eol, &error)) == G_IO_STATUS_NORMAL) {
 			raw[eol] = '\0';
 			process_cmd(&ah, raw);
 			g_free(raw);
@@ -1828,6 +1829,10 @@ static gboolean handle_client_data(GIOChannel *channel,
 		if (error != NULL) {
 			g_error_free(error);
 		}
+
+		if (status != G_IO_STATUS_AGAIN) {
+			return FALSE;
+		}
 	}
 
 	if (condition & G_IO_HUP) {
-- 
2.43.0


From 40f400efffcc153ca886d138f78e7f3b6b872cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:24 +0000
Subject: [PATCH 54/96] fix: don't crash on UNSET of settings that need a
 value, nor on showing ones that have none

---
 src/admin.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index df709a1..ac60fdc 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1145,7 +1145,7 @@ static gboolean motd_file_set(admin_handle h, const char *name)
 {
 	struct global *g = admin_get_global(h);
 
-	if (!g_file_test(name, G_FILE_TEST_EXISTS)) {
+	if (name != NULL && !g_file_test(name, G_FILE_TEST_EXISTS)) {
 		admin_out(h, "%s: file does not exist", name);
 		return FALSE;
 	}
@@ -1219,6 +1219,10 @@ static gboolean report_time_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
+	if (value == NULL) {
+		value = "never";
+	}
+
 	if (!strcasecmp(value, "never") || !strcasecmp(value, "false")) {
 		g->config->report_time = REPORT_TIME_NEVER;
 	} else if (!strcasecmp(value, "always")) {
@@ -1227,6 +1231,7 @@ static gboolean report_time_set(admin_handle h, const char *value)
 			  !strcasecmp(value, "true")) {
 		g->config->report_time = REPORT_TIME_REPLICATION;
 	} else {
+		admin_out(h, "Invalid value `%s'", value);
 		return FALSE;
 	}
 
@@ -1244,7 +1249,7 @@ static gboolean replication_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	if (repl_find_backend(value) == NULL) {
+	if (value != NULL && repl_find_backend(value) == NULL) {
 		admin_out(h, "No such replication backend `%s'", value);
 		return FALSE;
 	}
@@ -1576,7 +1581,7 @@ static char *default_nick_get(admin_handle h)
 static gboolean default_nick_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
-	if (strlen(value) == 0) {
+	if (value == NULL || strlen(value) == 0) {
 		admin_out(h, "Nick name can't be empty.");
 		return FALSE;
 	}
@@ -1604,7 +1609,7 @@ static char *default_username_get(admin_handle h)
 static gboolean default_username_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
-	if (strlen(value) == 0) {
+	if (value == NULL || strlen(value) == 0) {
 		admin_out(h, "Username can't be empty.");
 		return FALSE;
 	}
@@ -1633,7 +1638,7 @@ static gboolean default_fullname_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	if (strlen(value) == 0) {
+	if (value == NULL || strlen(value) == 0) {
 		admin_out(h, "Fullname can't be empty");
 		return FALSE;
 	}
@@ -1691,8 +1696,11 @@ static void cmd_unset(admin_handle h, const char * const *args, void *userdata)
 	for (i = 0; settings[i].name; i++) {
 		if (!strcasecmp(settings[i].name, args[1])) {
 			settings[i].set(h, NULL);
+			return;
 		}
 	}
+
+	admin_out(h, "Unknown setting `%s'", args[1]);
 }
 
 static void cmd_set(admin_handle h, const char * const *args, void *userdata)
@@ -1704,7 +1712,7 @@ static void cmd_set(admin_handle h, const char * const *args, void *userdata)
 		for (i = 0; settings[i].name != NULL; i++) {
 			tmp = settings[i].get(h);
 			if (tmp == NULL) {
-				admin_out(h, "%s is not set", settings[i]);
+				admin_out(h, "%s is not set", settings[i].name);
 			} else {
 				admin_out(h, "%s = %s", settings[i].name, tmp);
 			}
@@ -1717,7 +1725,11 @@ static void cmd_set(admin_handle h, const char * const *args, void *userdata)
 					settings[i].set(h, args[2]);
 				} else {
 					tmp = settings[i].get(h);
-					admin_out(h, "%s", tmp);
+					if (tmp == NULL) {
+						admin_out(h, "%s is not set", settings[i].name);
+					} else {
+						admin_out(h, "%s", tmp);
+					}
 					g_free(tmp);
 				}
 				return;
-- 
2.43.0


From f9abad5a8ba26d0f4c167a5aaeb41dba4db03957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:04 +0000
Subject: [PATCH 55/96] fix: let SET admin-user set the admin user

---
 src/admin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/admin.c b/src/admin.c
index ac60fdc..8978f06 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1272,7 +1272,7 @@ static gboolean admin_user_set(admin_handle h, const char *value)
 	struct global *g = admin_get_global(h);
 
 	g_free(g->config->admin_user);
-	if (strlen(value) == 0) {
+	if (value != NULL && strlen(value) > 0) {
 		/* FIXME: Check whether value is a somewhat valid IRC nick? */
 		g->config->admin_user = g_strdup(value);
 	} else {
-- 
2.43.0


From 4b9de10ab5520d18508e3274dae7b544eebe926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:06 +0000
Subject: [PATCH 56/96] fix: refuse values that aren't numbers for settings
 that are

---
 src/admin.c | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 8978f06..770c806 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -645,6 +645,9 @@ static void cmd_backlog(admin_handle h, const char * const *args, void *userdata
 	g_hash_table_replace(markers, n, linestack_get_marker(n->linestack));
 }
 
+static gboolean interpret_number(admin_handle h, const char *value,
+								 int unset, int *ret);
+
 static char *logging_get(admin_handle h)
 {
 	struct global *g = admin_get_global(h);
@@ -680,10 +683,14 @@ static gboolean log_level_set(admin_handle h, const char *value)
 	int x;
 
 	if (value == NULL) {
+		admin_out(h, "The log level can't be unset.");
+		return FALSE;
+	}
+
+	if (!interpret_number(h, value, 0, &x)) {
 		return FALSE;
 	}
 
-	x = atoi(value);
 	if (x < 0 || x > 5) {
 		admin_out(h, "Invalid log level %d", x);
 		return FALSE;
@@ -1183,6 +1190,29 @@ static gboolean interpret_boolean(admin_handle h, const char *value,
 	return FALSE;
 }
 
+static gboolean interpret_number(admin_handle h, const char *value,
+								 int unset, int *ret)
+{
+	char *end;
+	long x;
+
+	if (value == NULL) {
+		*ret = unset;
+		return TRUE;
+	}
+
+	errno = 0;
+	x = strtol(value, &end, 10);
+	if (end == value || *end != '\0' || errno != 0 ||
+		x < G_MININT || x > G_MAXINT) {
+		admin_out(h, "Invalid number `%s'", value);
+		return FALSE;
+	}
+
+	*ret = x;
+	return TRUE;
+}
+
 #define BOOL_SETTING(name) \
 static char *name ## _get(admin_handle h) \
 { \
@@ -1299,9 +1329,7 @@ static gboolean max_who_age_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	g->config->cache.max_who_age = (value == NULL?0:atoi(value));
-
-	return TRUE;
+	return interpret_number(h, value, 0, &g->config->cache.max_who_age);
 }
 
 static char *auto_away_time_get(admin_handle h)
@@ -1319,11 +1347,9 @@ static gboolean auto_away_time_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	g->config->auto_away.max_idle_time = (value == NULL?-1:atoi(value));
-
 	/* FIXME: Restart auto-away */
 
-	return TRUE;
+	return interpret_number(h, value, -1, &g->config->auto_away.max_idle_time);
 }
 
 static char *auto_away_enable_get(admin_handle h)
@@ -1387,9 +1413,7 @@ static gboolean auto_away_client_limit_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	g->config->auto_away.client_limit = (value == NULL?-1:atoi(value));
-
-	return TRUE;
+	return interpret_number(h, value, -1, &g->config->auto_away.client_limit);
 }
 
 static char *report_time_offset_get(admin_handle h)
@@ -1407,9 +1431,7 @@ static gboolean report_time_offset_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	g->config->report_time_offset = (value == NULL?0:atoi(value));
-
-	return TRUE;
+	return interpret_number(h, value, 0, &g->config->report_time_offset);
 }
 
 static char *port_get(admin_handle h)
-- 
2.43.0


From a444bb290867bfaf4473b537d577adb4880ba131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:07 +0000
Subject: [PATCH 57/96] fix: say so when a setting can't be changed

---
 src/admin.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/admin.c b/src/admin.c
index 770c806..91df780 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -666,6 +666,7 @@ static char *logging_get(admin_handle h)
 static gboolean logging_set(admin_handle h, const char *value)
 {
 	/* FIXME: Implement */
+	admin_out(h, "Logging can only be changed in the configuration file.");
 
 	return FALSE;
 }
@@ -1467,6 +1468,8 @@ static gboolean port_set(admin_handle h, const char *value)
 		}
 	}
 
+	admin_out(h, "There is no default listener.");
+
 	return FALSE;
 }
 
@@ -1503,6 +1506,8 @@ static gboolean bind_set(admin_handle h, const char *value)
 		}
 	}
 
+	admin_out(h, "There is no default listener.");
+
 	return FALSE;
 }
 
@@ -1539,6 +1544,8 @@ static gboolean password_set(admin_handle h, const char *value)
 		}
 	}
 
+	admin_out(h, "There is no default listener.");
+
 	return FALSE;
 }
 
@@ -1575,6 +1582,8 @@ static gboolean default_network_set(admin_handle h, const char *value)
 		}
 	}
 
+	admin_out(h, "There is no default listener.");
+
 	return FALSE;
 }
 
-- 
2.43.0


From f7dfef8e1c0a4fd6e290676f1fdaba26c4d46702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:08 +0000
Subject: [PATCH 58/96] fix: save settings that were unset as such

---
 src/settings.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/settings.c b/src/settings.c
index 9d67272..2871f17 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -442,6 +442,8 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 	g_key_file_set_boolean(cfg->keyfile, "global", "autosave", cfg->autosave);
 	if (cfg->admin_user != NULL)
 		g_key_file_set_string(cfg->keyfile, "global", "admin-user", cfg->admin_user);
+	else
+		g_key_file_remove_key(cfg->keyfile, "global", "admin-user", NULL);
 
 	if (g_key_file_has_key(cfg->keyfile, "global", "admin-log", NULL) ||
 		!cfg->admin_log)
@@ -467,11 +469,17 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 
 	if (cfg->client_charset != NULL)
 		g_key_file_set_string(cfg->keyfile, "global", "default-client-charset", cfg->client_charset);
+	else
+		g_key_file_remove_key(cfg->keyfile, "global", "default-client-charset", NULL);
 
 	if (cfg->replication)
 		g_key_file_set_string(cfg->keyfile, "global", "replication", cfg->replication);
+	else
+		g_key_file_remove_key(cfg->keyfile, "global", "replication", NULL);
 	if (cfg->motd_file != NULL)
 		g_key_file_set_string(cfg->keyfile, "global", "motd-file", cfg->motd_file);
+	else
+		g_key_file_remove_key(cfg->keyfile, "global", "motd-file", NULL);
 
 	switch (cfg->report_time) {
 	case REPORT_TIME_ALWAYS:
-- 
2.43.0


From bf2e2081f28c020e0d0cf0d5ebff7636da2a2dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:29 +0000
Subject: [PATCH 59/96] fix: save automatic away settings that were unset as
 such

---
 src/settings.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/settings.c b/src/settings.c
index 2871f17..c1073b3 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1234,18 +1234,26 @@ static void config_save_auto_away(struct auto_away_config *d, struct ctrlproxy_c
 
 	if (d->message != NULL) {
 		g_key_file_set_string(kf, "global", "auto-away-message", d->message);
+	} else {
+		g_key_file_remove_key(kf, "global", "auto-away-message", NULL);
 	}
 
 	if (d->nick != NULL) {
 		g_key_file_set_string(kf, "global", "auto-away-nick", d->nick);
+	} else {
+		g_key_file_remove_key(kf, "global", "auto-away-nick", NULL);
 	}
 
 	if (d->client_limit != -1) {
 		g_key_file_set_integer(kf, "global", "auto-away-client-limit", d->client_limit);
+	} else {
+		g_key_file_remove_key(kf, "global", "auto-away-client-limit", NULL);
 	}
 
 	if (d->max_idle_time != -1) {
 		g_key_file_set_integer(kf, "global", "auto-away-time", d->max_idle_time);
+	} else {
+		g_key_file_remove_key(kf, "global", "auto-away-time", NULL);
 	}
 }
 
-- 
2.43.0


From c75f9713396975864119a51f5a6cb47cd628f6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:31 +0000
Subject: [PATCH 60/96] fix: don't use the network or client of a command after
 it is gone

---
 src/admin.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 91df780..b950b6c 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -800,12 +800,15 @@ gboolean admin_process_command(struct irc_client *c, struct irc_line *l, int cmd
 		g_free(oldtmp);
 	}
 
+	/* The command may remove the network and disconnect the client */
 	ah.send_fn = privmsg_admin_out;
-	ah.client = c;
-	ah.network = c->network;
+	ah.client = client_ref(c);
+	ah.network = irc_network_ref(c->network);
 	ah.global = c->network->global;
 	ret = process_cmd(&ah, tmp);
 
+	irc_network_unref(ah.network);
+	client_unref(ah.client);
 	g_free(tmp);
 
 	return ret;
-- 
2.43.0


From 51b129640229901315a04233015ebd89dcc7a0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:04 +0000
Subject: [PATCH 61/96] fix: keep the configuration of networks that are
 renamed

---
 src/admin.c    |  4 ++++
 src/settings.c | 33 +++++++++++++++++++++++++++++++++
 src/settings.h |  1 +
 3 files changed, 38 insertions(+)

diff --git a/src/admin.c b/src/admin.c
index b950b6c..a67959f 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -386,8 +386,12 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 		return;
 	}
 
+	config_rename_network(admin_get_global(h)->config, n->private_data, newname);
+
 	g_free(n->name);
 	n->name = g_strdup(newname);
+
+	admin_out(h, "Network `%s' is now called `%s'", oldname, newname);
 }
 
 static void del_network_helper(admin_handle h, const char *name)
diff --git a/src/settings.c b/src/settings.c
index c1073b3..f14e475 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1004,6 +1004,39 @@ void config_del_network(struct ctrlproxy_config *cfg, const char *name)
 	cfg->networks = g_list_remove(cfg->networks, config_find_network(cfg, name));
 }
 
+/**
+ * Change the name under which the configuration of a network is kept.
+ */
+void config_rename_network(struct ctrlproxy_config *cfg,
+						   struct network_config *nc, const char *name)
+{
+	GList *gl;
+
+	for (gl = cfg->listeners; gl; gl = gl->next) {
+		struct listener_config *l = gl->data;
+
+		if (l->network != NULL && !strcasecmp(l->network, nc->name)) {
+			g_free(l->network);
+			l->network = g_strdup(name);
+		}
+	}
+
+	if (nc->filename != NULL) {
+		/* Networks are called after their file */
+		char *dir = g_path_get_dirname(nc->filename);
+		g_free(nc->filename);
+		nc->filename = g_build_filename(dir, name, NULL);
+		g_free(dir);
+	} else if (nc->groupname != NULL) {
+		g_key_file_remove_group(nc->keyfile, nc->groupname, NULL);
+		g_free(nc->groupname);
+		nc->groupname = g_strdup(name);
+	}
+
+	g_free(nc->name);
+	nc->name = g_strdup(name);
+}
+
 #define IS_SPECIAL_FILE(name) (name[0] == '.' || name[strlen(name)-1] == '~')
 
 static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg)
diff --git a/src/settings.h b/src/settings.h
index 8fd2456..a7032f4 100644
--- a/src/settings.h
+++ b/src/settings.h
@@ -247,5 +247,6 @@ G_MODULE_EXPORT void free_config(struct ctrlproxy_config *);
 G_MODULE_EXPORT void setup_configdir(const char *dir);
 G_MODULE_EXPORT gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *file, GError **error);
 G_MODULE_EXPORT void config_del_network(struct ctrlproxy_config *cfg, const char *name);
+G_MODULE_EXPORT void config_rename_network(struct ctrlproxy_config *cfg, struct network_config *nc, const char *name);
 
 #endif /* __CTRLPROXY_SETTINGS_H__ */
-- 
2.43.0


From 4e8ea049f3d98175b91f29ae7ee24a267413319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:06 +0000
Subject: [PATCH 62/96] fix: remove everything that refers to a deleted network

---
 src/admin.c    | 17 ++++++++++++++++-
 src/settings.c | 11 ++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index a67959f..2a8d72f 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -397,6 +397,9 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 static void del_network_helper(admin_handle h, const char *name)
 {
 	struct irc_network *n = find_network(admin_get_global(h)->networks, name);
+	struct network_config *nc;
+	GList *gl;
+
 	if (n == NULL) {
 		admin_out(h, "No such network `%s'", name);
 		return;
@@ -404,9 +407,21 @@ static void del_network_helper(admin_handle h, const char *name)
 
 	disconnect_network(n);
 
+	/* Nobody should end up on this network any more */
+	for (gl = admin_get_global(h)->listeners; gl; gl = gl->next) {
+		struct irc_listener *l = gl->data;
+
+		if (l->network == n) {
+			irc_network_unref(l->network);
+			l->network = NULL;
+		}
+	}
+
+	nc = n->private_data;
+
 	unload_network(n);
 
-	config_del_network(admin_get_global(h)->config, name);
+	config_del_network(admin_get_global(h)->config, nc->name);
 
 	admin_out(h, "Network `%s' deleted", name);
 }
diff --git a/src/settings.c b/src/settings.c
index f14e475..378ae23 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1001,7 +1001,16 @@ struct network_config *config_find_network(struct ctrlproxy_config *cfg,
 
 void config_del_network(struct ctrlproxy_config *cfg, const char *name)
 {
-	cfg->networks = g_list_remove(cfg->networks, config_find_network(cfg, name));
+	struct network_config *nc = config_find_network(cfg, name);
+
+	if (nc == NULL)
+		return;
+
+	cfg->networks = g_list_remove(cfg->networks, nc);
+
+	/* It would be back after a restart otherwise */
+	if (nc->filename == NULL && nc->groupname != NULL)
+		g_key_file_remove_group(nc->keyfile, nc->groupname, NULL);
 }
 
 /**
-- 
2.43.0


From 12e397acf5c3e7beda32ae706e6a2bee251293cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:30 +0000
Subject: [PATCH 63/96] fix: use the whole value given to SET

---
 src/admin.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/admin.c b/src/admin.c
index 2a8d72f..c2030ad 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1775,7 +1775,10 @@ static void cmd_set(admin_handle h, const char * const *args, void *userdata)
 		for (i = 0; settings[i].name; i++) {
 			if (!strcasecmp(settings[i].name, args[1])) {
 				if (args[2] != NULL) {
-					settings[i].set(h, args[2]);
+					/* The value may contain spaces */
+					tmp = g_strjoinv(" ", (char **)args + 2);
+					settings[i].set(h, tmp);
+					g_free(tmp);
 				} else {
 					tmp = settings[i].get(h);
 					if (tmp == NULL) {
-- 
2.43.0


From df6b135f81f101b54cdbb70f2c065c5632660ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:32 +0000
Subject: [PATCH 64/96] fix: handle commands to the admin network that lack
 parameters

---
 src/admin.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index c2030ad..c656cf3 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -743,7 +743,7 @@ static void cmd_charset(admin_handle h, const char * const *args, void *userdata
 
 static void cmd_echo(admin_handle h, const char * const *args, void *userdata)
 {
-	admin_out(h, "%s", args[1]);
+	admin_out(h, "%s", args[1] != NULL?args[1]:"");
 }
 
 static gint cmp_cmd(gconstpointer a, gconstpointer b)
@@ -857,12 +857,23 @@ static gboolean admin_net_init(struct irc_network *n)
 
 static gboolean admin_to_server (struct irc_network *n, struct irc_client *c, const struct irc_line *l)
 {
+	if (l->argc < 2 &&
+		(!base_strcmp(l->args[0], "PRIVMSG") ||
+		 !base_strcmp(l->args[0], "NOTICE") ||
+		 !base_strcmp(l->args[0], "WHO") ||
+		 !base_strcmp(l->args[0], "JOIN") ||
+		 !base_strcmp(l->args[0], "PART") ||
+		 !base_strcmp(l->args[0], "WHOIS"))) {
+		virtual_network_recv_response(n, ERR_NEEDMOREPARAMS, l->args[0], "Not enough params", NULL);
+		return TRUE;
+	}
+
 	if (!base_strcmp(l->args[0], "PRIVMSG") ||
 		!base_strcmp(l->args[0], "NOTICE")) {
 		struct admin_handle ah;
 
-		if (irccmp(n->external_state->info, l->args[0], n->external_state->me.nick) == 0) {
-			virtual_network_recv_args(n, n->external_state->me.hostmask, l->args[0], l->args[1], NULL);
+		if (irccmp(n->external_state->info, l->args[1], n->external_state->me.nick) == 0) {
+			virtual_network_recv_args(n, n->external_state->me.hostmask, l->args[0], l->args[1], l->argc > 2?l->args[2]:NULL, NULL);
 			return TRUE;
 		}
 
@@ -878,7 +889,7 @@ static gboolean admin_to_server (struct irc_network *n, struct irc_client *c, co
 		ah.network = n;
 		ah.global = n->global;
 
-		return process_cmd(&ah, l->args[2]);
+		return process_cmd(&ah, l->argc > 2?l->args[2]:NULL);
 	} else if (!base_strcmp(l->args[0], "ISON")) {
 		int i;
 		char *tmp;
-- 
2.43.0


From 3380dba42316df195a8fd094d9e973083c9f0546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:33 +0000
Subject: [PATCH 65/96] fix: refuse network names that can't be used in the
 configuration

---
 src/admin.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/admin.c b/src/admin.c
index c656cf3..32a0e84 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -350,11 +350,27 @@ static void cmd_save_config (admin_handle h, const char * const *args, void *use
 	admin_out(h, "Configuration saved in %s", adm_dir);
 }
 
+/**
+ * Check that a network name can be used as name of a file and of a
+ * group in the configuration file.
+ */
+static gboolean valid_network_name(const char *name)
+{
+	return name[0] != '\0' && strchr("#&.", name[0]) == NULL &&
+		name[strlen(name)-1] != '~' && strpbrk(name, "/:[]") == NULL &&
+		strcmp(name, "global") != 0 && strcmp(name, "socks") != 0;
+}
+
 static void add_network_helper(admin_handle h, const char *name)
 {
 	struct network_config *nc;
 	struct irc_network *n;
 
+	if (!valid_network_name(name)) {
+		admin_out(h, "Invalid network name `%s'", name);
+		return;
+	}
+
 	if (find_network(admin_get_global(h)->networks, name) != NULL) {
 		admin_out(h, "Network with name `%s' already exists", name);
 		return;
@@ -381,6 +397,11 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 		return;
 	}
 
+	if (!valid_network_name(newname)) {
+		admin_out(h, "Invalid network name `%s'", newname);
+		return;
+	}
+
 	if (find_network(admin_get_global(h)->networks, newname) != NULL) {
 		admin_out(h, "Network with name `%s' already exists", newname);
 		return;
-- 
2.43.0


From fbd3b764a145b98ecfdf34253aee081eab49120f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:38 +0000
Subject: [PATCH 66/96] fix: SET default-client-charset refuses unknown
 character sets

With a character set that does not exist every client that came in later was
disconnected.
---
 src/admin.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/admin.c b/src/admin.c
index 32a0e84..f2acfdf 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1652,6 +1652,17 @@ static gboolean default_client_charset_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
+	if (value != NULL) {
+		GIConv cd = g_iconv_open("UTF-8", value);
+
+		if (cd == (GIConv)-1) {
+			admin_out(h, "Unknown character set: %s", value);
+			return FALSE;
+		}
+		g_iconv_close(cd);
+	}
+
+	g_free(g->config->client_charset);
 	g->config->client_charset = g_strdup(value);
 
 	return TRUE;
-- 
2.43.0


From be8f1d896adcdb6af569c3a081a0e90e3f95ac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:21 +0000
Subject: [PATCH 67/96] fix: don't let clients in to a network that was deleted
 while they logged in

A client that had chosen a network but not finished its login when the
network was deleted was attached to the deleted network afterwards.
---
 src/client.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/client.c b/src/client.c
index 3ecca1f..4117b2a 100644
--- a/src/client.c
+++ b/src/client.c
@@ -158,6 +158,12 @@ static gboolean welcome_client(struct irc_client *client)
 		return FALSE;
 	}
 
+	if (client->network->global != NULL &&
+		g_list_find(client->network->global->networks, client->network) == NULL) {
+		client_disconnect(client, "The network was removed");
+		return FALSE;
+	}
+
 	client->network->clients = g_list_append(client->network->clients, client);
 	client_send_response(client, RPL_WELCOME, "Welcome to the ctrlproxy", NULL);
 	tmp = g_strdup_printf("Host %s is running ctrlproxy", client->default_origin);
-- 
2.43.0


From 785de7b310fa7347dcab5a74f0fc472ea610f934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:33 +0000
Subject: [PATCH 68/96] fix: don't crash at exit after the log was reopened on
 SIGHUP

---
 src/log.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/log.c b/src/log.c
index d67fc89..ffe06ff 100644
--- a/src/log.c
+++ b/src/log.c
@@ -128,7 +128,7 @@ static void log_handler(const gchar *log_domain, GLogLevelFlags flags, const gch
 static void fini_log(void)
 {
 	log_global(LOG_INFO, "Closing log file");
-	if (flog != stderr) {
+	if (flog != NULL && flog != stderr) {
 		fclose(flog);
 	}
 	flog = NULL;
@@ -136,6 +136,8 @@ static void fini_log(void)
 
 gboolean init_log(const char *lf)
 {
+	static gboolean registered = FALSE;
+	FILE *f;
 	g_log_set_handler ("GLib", G_LOG_LEVEL_MASK | G_LOG_FLAG_FATAL | G_LOG_FLAG_RECURSION, log_handler, NULL);
 
 	if (!lf) {
@@ -143,13 +145,21 @@ gboolean init_log(const char *lf)
 		return TRUE;
 	}
 
-	flog = fopen(lf, "a+");
-	if (!flog) {
+	f = fopen(lf, "a+");
+	if (!f) {
 		perror("Opening log file");
 		return FALSE;
 	}
 
-	atexit(fini_log);
+	/* The log file may be opened again later on */
+	if (flog != NULL && flog != stderr)
+		fclose(flog);
+	flog = f;
+
+	if (!registered) {
+		atexit(fini_log);
+		registered = TRUE;
+	}
 
 	log_global(LOG_INFO, "Opening log file");
 	return TRUE;
-- 
2.43.0


From 6fcb0fe69c649b2857aebb2b823812d3bb60e79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:34 +0000
Subject: [PATCH 69/96] fix: reopening logs doesn't abort when a log file
 couldn't be opened

---
 src/log_support.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/log_support.c b/src/log_support.c
index 0956505..931ad9c 100644
--- a/src/log_support.c
+++ b/src/log_support.c
@@ -57,7 +57,8 @@ static gboolean eval_remove(gpointer key, gpointer value, gpointer user_data)
 	struct log_support_context *ctx = user_data;
 
 	if (fi->last_used < time(NULL) - CLEANUP_THRESHOLD) {
-		ctx->num_opened--;
+		if (fi->file != NULL)
+			ctx->num_opened--;
 		g_assert(ctx->num_opened >= 0);
 		return TRUE;
 	}
@@ -73,8 +74,12 @@ void log_support_cleanup(struct log_support_context *ctx)
 static gboolean unconditional_remove(gpointer key, gpointer value,
 									 gpointer user_data)
 {
+	struct log_file_info *fi = value;
 	struct log_support_context *ctx = user_data;
-	ctx->num_opened--;
+
+	/* A file that couldn't be opened isn't counted */
+	if (fi->file != NULL)
+		ctx->num_opened--;
 	g_assert(ctx->num_opened >= 0);
 	return TRUE;
 }
-- 
2.43.0


From 8a0b63be7131ab4edfd041a98fb44534336c8b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:19 +0000
Subject: [PATCH 70/96] fix: write the reason of a kick to irssi style logs

---
 src/settings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/settings.c b/src/settings.c
index 378ae23..777043e 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1228,7 +1228,7 @@ static void config_load_log(struct ctrlproxy_config *config)
 		data->action = "%h:%M  * %n %m";
 		data->mode = "%h:%M -!- mode/%t [%p %c] by %n";
 		data->quit = "%h:%M -!- %n [%u] has quit [%m]";
-		data->kick = "%h:%M -!- %t has been kicked by %n [%m]";
+		data->kick = "%h:%M -!- %t has been kicked by %n [%r]";
 		data->topic = "%h:%M -!- %n has changed the topic to %t";
 		data->notopic = "%h:%M -!- %n has removed the topic";
 		data->nickchange = "%h:%M -!- %n is now known as %r";
-- 
2.43.0


From 5d4a6dd551e650dfa2c503431a29f6166035b05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:41 +0000
Subject: [PATCH 71/96] fix: log messages without parameters and actions
 without end

---
 src/log_custom.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/log_custom.c b/src/log_custom.c
index 441d592..a980c1a 100644
--- a/src/log_custom.c
+++ b/src/log_custom.c
@@ -201,6 +201,11 @@ static gboolean log_custom_data(struct irc_network *network,
 		return TRUE;
 	}
 
+	/* Only a QUIT means something without parameters */
+	if (l->args[1] == NULL && base_strcmp(l->args[0], "QUIT")) {
+		return TRUE;
+	}
+
 	if (l->origin != NULL) {
 		nick = line_get_nick(l);
 	}
@@ -221,13 +226,17 @@ static gboolean log_custom_data(struct irc_network *network,
 		file_write_channel_only(data, network, data->config->part, l);
 	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->args[2] != NULL) {
 		if (l->args[2][0] == '\001') {
-			l->args[2][strlen(l->args[2])-1] = '\0';
+			size_t len = strlen(l->args[2]);
+			gboolean closed = (len > 1 && l->args[2][len-1] == '\001');
+			if (closed)
+				l->args[2][len-1] = '\0';
 			if (!g_ascii_strncasecmp(l->args[2], "\001ACTION ", 8)) {
 				l->args[2]+=8;
 				file_write_target(data, network, data->config->action, l);
 				l->args[2]-=8;
 			}
-			l->args[2][strlen(l->args[2])] = '\001';
+			if (closed)
+				l->args[2][len-1] = '\001';
 			/* Ignore all other ctcp messages */
 		} else {
 			file_write_target(data, network, data->config->msg, l);
-- 
2.43.0


From 8fe2e0c91f6f58e3524f59c197c2e7403aef96ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:42 +0000
Subject: [PATCH 72/96] fix: expand parameters in logs regardless of the case
 of the command

---
 src/log_subst.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_subst.c b/src/log_subst.c
index 154b65e..2ef2f6a 100644
--- a/src/log_subst.c
+++ b/src/log_subst.c
@@ -222,7 +222,7 @@ static char *find_mapping(struct subst_context *subst_ctx,
 {
 	int i;
 	for (i = 0; mappings[i].subst; i++) {
-		if (mappings[i].command && strcmp(mappings[i].command, l->args[0]))
+		if (mappings[i].command && base_strcmp(mappings[i].command, l->args[0]))
 			continue;
 
 		if (mappings[i].subst != c)
-- 
2.43.0


From 1b0f902575ab12cca523bb5ce33bba5f6a5919fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:43 +0000
Subject: [PATCH 73/96] fix: overflow when logging a mode change with long
 arguments

---
 src/log_subst.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/log_subst.c b/src/log_subst.c
index 2ef2f6a..c07f357 100644
--- a/src/log_subst.c
+++ b/src/log_subst.c
@@ -149,15 +149,15 @@ static char *get_identifier(struct subst_context *subst_ctx, const struct irc_li
 
 static char *get_modechanges(struct subst_context *subst_ctx, const struct irc_line *line, gboolean case_sensitive)
 {
-	char buf[512] = "";
+	GString *ret = g_string_new("");
 	int i;
 
 	for (i = 3 ; i < line->argc && line->args[i] != NULL; i++) {
-		if (i > 3) strncat(buf, " ", sizeof(buf)-1);
-		strncat(buf, line->args[i], sizeof(buf)-1);
+		if (i > 3) g_string_append_c(ret, ' ');
+		g_string_append(ret, line->args[i]);
 	}
 
-	return g_strdup(buf);
+	return g_string_free(ret, FALSE);
 }
 
 static struct log_mapping mappings[] = {
-- 
2.43.0


From 3b43335ab2ca13c0118bddf29ffbe677ce23e3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:17 +0000
Subject: [PATCH 74/96] fix: an absent topic is never the reply to a question
 about another channel

---
 libirc/redirect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index d2e4ece..f732b2b 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -681,7 +681,7 @@ void *query_stack_match_response(struct query_stack *stack, const struct irc_lin
 		/* These list what matches, not what was asked for */
 		gl = find_entry(stack, l, FALSE);
 		break;
-	case RPL_NAMREPLY: case RPL_ENDOFNAMES: case RPL_TOPIC:
+	case RPL_NAMREPLY: case RPL_ENDOFNAMES: case RPL_TOPIC: case RPL_NOTOPIC:
 		/* These are also sent unasked */
 		gl = find_entry(stack, l, TRUE);
 		break;
-- 
2.43.0


From 5dd2a3ff5373c5a915d35f5897e6d58213bdb39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:33 +0000
Subject: [PATCH 75/96] fix: support tokens without a value crash the proxy

---
 libirc/isupport.c | 52 ++++++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/libirc/isupport.c b/libirc/isupport.c
index b4656a8..9d4b3db 100644
--- a/libirc/isupport.c
+++ b/libirc/isupport.c
@@ -380,6 +380,12 @@ static void check_chanmodes_inconsistency(struct irc_network_info *info)
 }
 
 
+/* Servers may leave out the value to indicate there is no limit */
+static int info_int(const char *val)
+{
+	return (val != NULL)?atoi(val):0;
+}
+
 void network_info_parse(struct irc_network_info *info, const char *parameter)
 {
 	char *sep;
@@ -396,7 +402,9 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 	}
 
 	if (!base_strcmp(key, "CASEMAPPING")) {
-		if (!base_strcmp(val, "rfc1459")) {
+		if (val == NULL) {
+			info->casemapping = CASEMAP_UNKNOWN;
+		} else if (!base_strcmp(val, "rfc1459")) {
 			info->casemapping = CASEMAP_RFC1459;
 		} else if (!base_strcmp(val, "strict-rfc1459")) {
 			info->casemapping = CASEMAP_STRICT_RFC1459;
@@ -414,37 +422,37 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		g_free(info->ircd);
 		info->ircd = g_strdup(val);
 	} else if (!base_strcmp(key, "NICKLEN") || !base_strcmp(key, "MAXNICKLEN")) {
-		info->nicklen = atoi(val);
+		info->nicklen = info_int(val);
 	} else if (!base_strcmp(key, "USERLEN")) {
-		info->userlen = atoi(val);
+		info->userlen = info_int(val);
 	} else if (!base_strcmp(key, "HOSTLEN")) {
-		info->hostlen = atoi(val);
+		info->hostlen = info_int(val);
 	} else if (!base_strcmp(key, "OVERRIDE")) {
 		info->operoverride = TRUE;
 	} else if (!base_strcmp(key, "CHANNELLEN") || !base_strcmp(key, "MAXCHANNELLEN")) {
-		info->channellen = atoi(val);
+		info->channellen = info_int(val);
 	} else if (!base_strcmp(key, "AWAYLEN")) {
-		info->awaylen = atoi(val);
+		info->awaylen = info_int(val);
 	} else if (!base_strcmp(key, "KICKLEN")) {
-		info->kicklen = atoi(val);
+		info->kicklen = info_int(val);
 	} else if (!base_strcmp(key, "TOPICLEN")) {
-		info->topiclen = atoi(val);
+		info->topiclen = info_int(val);
 	} else if (!base_strcmp(key, "WATCH")) {
-		info->watch = atoi(val);
+		info->watch = info_int(val);
 	} else if (!base_strcmp(key, "VBANLIST")) {
 		info->vbanlist = TRUE;
 	} else if (!base_strcmp(key, "MAXPARA")) {
-		info->maxpara = atoi(val);
+		info->maxpara = info_int(val);
 	} else if (!base_strcmp(key, "MAXCHANNELS")) {
-		info->maxchannels = atoi(val);
+		info->maxchannels = info_int(val);
 	} else if (!base_strcmp(key, "MAXTARGETS")) {
-		info->maxtargets = atoi(val);
+		info->maxtargets = info_int(val);
 	} else if (!base_strcmp(key, "REMOVE")) {
 		info->remove = TRUE;
 	} else if (!base_strcmp(key, "MAXBANS")) {
-		info->maxbans = atoi(val);
+		info->maxbans = info_int(val);
 	} else if (!base_strcmp(key, "MODES")) {
-		info->maxmodes = atoi(val);
+		info->maxmodes = info_int(val);
 	} else if (!base_strcmp(key, "WALLCHOPS")) {
 		info->wallchops = TRUE;
 	} else if (!base_strcmp(key, "MAP")) {
@@ -486,7 +494,7 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 	} else if (!base_strcmp(key, "UHNAMES")) {
 		info->uhnames = TRUE;
 	} else if (!base_strcmp(key, "KEYLEN")) {
-		info->keylen = atoi(val);
+		info->keylen = info_int(val);
 	} else if (!base_strcmp(key, "SILENCE")) {
 		if (val) {
 			info->silence_limit = atoi(val);
@@ -495,14 +503,16 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 			info->silence = TRUE;
 	} else if (!base_strcmp(key, "CHANTYPES")) {
 		g_free(info->chantypes);
-		info->chantypes = g_strdup(val);
+		info->chantypes = g_strdup(val != NULL?val:"");
 	} else if (!base_strcmp(key, "CHANMODES")) {
 		g_strfreev(info->chanmodes);
 		info->chanmodes_a = info->chanmodes_b =
 			info->chanmodes_c = info->chanmodes_d = NULL;
-		info->chanmodes = g_strsplit(val, ",", 4);
+		info->chanmodes = g_strsplit(val != NULL?val:"", ",", 4);
 		if (g_strv_length(info->chanmodes) != 4) {
 			network_info_log(LOG_WARNING, info, "Expected 4-tuple for CHANMODES, received tuple was of size %d", g_strv_length(info->chanmodes));
+			g_strfreev(info->chanmodes);
+			info->chanmodes = NULL;
 		} else {
 			info->chanmodes_a = info->chanmodes[0];
 			info->chanmodes_b = info->chanmodes[1];
@@ -532,7 +542,7 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 			info->invex_mode = val[0];
 	} else if (!base_strcmp(key, "ELIST")) {
 		int i;
-		for (i = 0; val[i]; i++) {
+		for (i = 0; val != NULL && val[i]; i++) {
 			switch (val[i]) {
 			case 'M': info->elist_mask_search = TRUE; break;
 			case 'N': info->elist_inverse_mask_search = TRUE; break;
@@ -575,12 +585,12 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		g_free(info->statusmsg);
 		info->statusmsg = g_strdup(val);
 	} else if (!base_strcmp(key, "PREFIX")) {
-		if (strlen(val) > 0 && (val[0] != '(' || !strchr(val, ')'))) {
+		if (val != NULL && strlen(val) > 0 && (val[0] != '(' || !strchr(val, ')'))) {
 			network_info_log(LOG_WARNING, info,
 							 "Malformed PREFIX data `%s'", val);
 		} else {
 			g_free(info->prefix);
-			info->prefix = g_strdup(val);
+			info->prefix = g_strdup(val != NULL?val:"");
 		}
 	} else if (!base_strcmp(key, "CHARSET")) {
 		g_free(info->charset);
@@ -648,7 +658,7 @@ gboolean is_channelname(const char *name, const struct irc_network_info *n)
 
 	g_assert(name != NULL);
 
-	if (strchr(n->chantypes, name[0]))
+	if (name[0] != '\0' && strchr(n->chantypes, name[0]))
 		return TRUE;
 
 	return FALSE;
-- 
2.43.0


From 53e60341b326f508ad0d22dcbb32e03ef3a4a6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:54 +0000
Subject: [PATCH 76/96] fix: empty nicks and nicks with more than one prefix
 don't crash the proxy

---
 libirc/state.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index bdd5a41..ecdd4ac 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -311,7 +311,7 @@ struct channel_nick *find_channel_nick(struct irc_channel_state *c,
 	else
 		info = c->network->info;
 
-	if (is_prefix(realname[0], info))
+	while (is_prefix(realname[0], info))
 		realname++;
 
 	for (l = c->nicks; l; l = g_list_next(l)) {
@@ -397,7 +397,6 @@ struct network_nick *find_add_network_nick(struct irc_network_state *n,
 	/* create one, if it doesn't exist */
 	nd = g_new0(struct network_nick,1);
 	g_assert(nd != NULL);
-	g_assert(!is_prefix(name[0], n->info));
 	nd->nick = g_strdup(name);
 	nd->hops = -1;
 
@@ -410,24 +409,24 @@ struct network_nick *find_add_network_nick(struct irc_network_state *n,
  *
  * @param n Channel state to search
  * @param name Name of the nick to search for
- * @return channel_nick structure, or NULL if out of memory.
+ * @return channel_nick structure, or NULL if there is no nick in the name.
  */
 struct channel_nick *find_add_channel_nick(struct irc_channel_state *c,
 										   const char *name)
 {
 	struct channel_nick *n;
 	const char *realname = name;
-	char prefix = 0;
+	const char *prefix;
 
 	g_assert(c);
 	g_assert(name);
-	g_assert(strlen(name) > 0);
 	g_assert(c->network);
 
-	if (is_prefix(realname[0], c->network->info)) {
-		prefix = realname[0];
+	while (is_prefix(realname[0], c->network->info))
 		realname++;
-	}
+
+	if (realname[0] == '\0')
+		return NULL;
 
 	n = find_channel_nick(c, realname);
 	if (n != NULL)
@@ -438,8 +437,8 @@ struct channel_nick *find_add_channel_nick(struct irc_channel_state *c,
 
 	n->channel = c;
 	n->global_nick = find_add_network_nick(c->network, realname);
-	if (prefix != 0) {
-		char mode = get_mode_by_prefix(prefix, c->network->info);
+	for (prefix = name; prefix < realname; prefix++) {
+		char mode = get_mode_by_prefix(*prefix, c->network->info);
 		if (mode)
 			modes_set_mode(n->modes, mode);
     }
@@ -470,11 +469,15 @@ static void handle_join(struct irc_network_state *s, const struct irc_line *l)
 	}
 
 	for (i = 0; channels[i]; i++) {
+		if (nick[0] == '\0' || channels[i][0] == '\0')
+			continue;
+
 		/* Someone is joining a channel the user is on */
 		c = find_add_channel(s, channels[i]);
 		g_assert(s->channels != NULL);
 		ni = find_add_channel_nick(c, nick);
-		network_nick_set_hostmask(ni->global_nick, l->origin);
+		if (ni != NULL)
+			network_nick_set_hostmask(ni->global_nick, l->origin);
 
 		/* The user is joining a channel */
 		if (!irccmp(s->info, nick, s->me.nick)) {
@@ -1098,6 +1101,10 @@ static void handle_nick(struct irc_network_state *s, const struct irc_line *l)
 
 	CHECK_ORIGIN(s, l, "NICK");
 
+	/* Nobody can go without a nick */
+	if (l->args[1][0] == '\0')
+		return;
+
 	nick = line_get_nick(l);
 	nn = find_add_network_nick(s, nick);
 	g_free(nick);
-- 
2.43.0


From 82bd04dd39eab7d5044e0a406b5a201fe3d1a9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:55 +0000
Subject: [PATCH 77/96] fix: ignore hostmasks that don't have a nick, user and
 host

---
 libirc/state.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index ecdd4ac..10a00be 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -124,20 +124,20 @@ gboolean network_nick_set_hostmask(struct network_nick *n, const char *hm)
 	if (n->hostmask && !strcmp(n->hostmask, hm))
 		return TRUE;
 
-	g_free(n->hostmask);
-	g_free(n->nick); n->nick = NULL;
-	g_free(n->username); n->username = NULL;
-	g_free(n->hostname); n->hostname = NULL;
-	n->hostmask = g_strdup(hm);
-
 	t = strchr(hm, '!');
 	if (!t)
 		return FALSE;
-	n->nick = g_strndup(hm, t-hm);
 
 	u = strchr(t, '@');
 	if (!u)
 		return FALSE;
+
+	g_free(n->hostmask);
+	g_free(n->nick); n->nick = NULL;
+	g_free(n->username); n->username = NULL;
+	g_free(n->hostname); n->hostname = NULL;
+	n->hostmask = g_strdup(hm);
+	n->nick = g_strndup(hm, t-hm);
 	n->username = g_strndup(t+1, u-t-1);
 
 	n->hostname = g_strdup(u+1);
-- 
2.43.0


From 5c6d523f5b9f5573b4efd9bb42e89a021a724dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:10 +0000
Subject: [PATCH 78/96] fix: USERHOST replies without a host make the proxy
 read past their end

---
 libirc/state.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 10a00be..386eb7b 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1177,7 +1177,7 @@ static void handle_329(struct irc_network_state *s, const struct irc_line *l)
 static void handle_302(struct irc_network_state *s, const struct irc_line *l)
 {
 	int i;
-	gchar **users = g_strsplit(g_strstrip(l->args[2]), " ", 0);
+	gchar **users = g_strsplit(l->args[2], " ", 0);
 	if (users == NULL) {
 		network_state_log(LOG_ERROR, s, "Unable to split user list (%s)",
 						  l->args[2]);
@@ -1187,7 +1187,7 @@ static void handle_302(struct irc_network_state *s, const struct irc_line *l)
 	for (i = 0; users[i]; i++) {
 		/* We got a USERHOST response, split it into nick and user@host, and check the nick */
 		gchar** tmp302 = g_strsplit(users[i], "=", 2);
-		if (g_strv_length(tmp302) > 1) {
+		if (g_strv_length(tmp302) > 1 && tmp302[1][0] != '\0') {
 			char *hm;
 			struct network_nick *nn;
 			/* FIXME: Strip *'s from the end of tmp302[0]*/
-- 
2.43.0


From 8137a2d02f57eab8998488a2e21aa5b56f4a6929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:11 +0000
Subject: [PATCH 79/96] fix: mode changes without origin crash the proxy

---
 libirc/state.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 386eb7b..fb52cc3 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1014,9 +1014,13 @@ static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
 			return;
 		}
 
-		by_name = line_get_nick(l);
-		by = find_network_nick(s, by_name);
-		g_free(by_name);
+		if (l->origin != NULL) {
+			by_name = line_get_nick(l);
+			by = find_network_nick(s, by_name);
+			g_free(by_name);
+		} else {
+			by = NULL;
+		}
 
 		for(i = 0; l->args[2][i]; i++) {
 			switch(l->args[2][i]) {
-- 
2.43.0


From b791a403cecf8c7e569aac54b346f4914e2c4d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:13 +0000
Subject: [PATCH 80/96] fix: 333 without a time crashes the proxy

---
 libirc/state.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libirc/state.c b/libirc/state.c
index fb52cc3..4021c68 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -657,6 +657,7 @@ static void handle_333(struct irc_network_state *s, const struct irc_line *l)
 	}
 
 	c->topic_set_time = strtol(l->args[4], NULL, 0);
+	g_free(c->topic_set_by);
 	c->topic_set_by = g_strdup(l->args[3]);
 }
 
@@ -1229,7 +1230,7 @@ static struct irc_command {
 	{ "324", 3, handle_324 },
 	{ "329", 3, handle_329 },
 	{ "332", 3, handle_332 },
-	{ "333", 3, handle_333 },
+	{ "333", 4, handle_333 },
 	{ "331", 2, handle_no_topic },
 	{ "353", 4, handle_namreply },
 	{ "366", 2, handle_end_names },
-- 
2.43.0


From 83ab75e083246fde36960d797cc93174400ee19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:54 +0000
Subject: [PATCH 81/96] fix: list entries without a mask make the proxy read
 past their end

---
 libirc/linestack.c | 5 ++++-
 libirc/state.c     | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 4847bb1..be52a31 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -1023,7 +1023,10 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 				return FALSE;
 
 			cn = find_add_channel_nick(*c, nick);
-			g_assert(cn);
+			if (cn == NULL) {
+				g_free(nick);
+				return FALSE;
+			}
 
 			if (!marshall_modes(nst, "modes", level+3, m, t, cn->modes))
 				return FALSE;
diff --git a/libirc/state.c b/libirc/state.c
index 4021c68..2e7bd8b 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1234,11 +1234,11 @@ static struct irc_command {
 	{ "331", 2, handle_no_topic },
 	{ "353", 4, handle_namreply },
 	{ "366", 2, handle_end_names },
-	{ "367", 2, handle_banlist_entry },
+	{ "367", 3, handle_banlist_entry },
 	{ "368", 2, handle_end_banlist },
-	{ "346", 2, handle_invitelist_entry },
+	{ "346", 3, handle_invitelist_entry },
 	{ "347", 2, handle_end_invitelist },
-	{ "348", 2, handle_exceptlist_entry },
+	{ "348", 3, handle_exceptlist_entry },
 	{ "349", 2, handle_end_exceptlist },
 	{ "352", 8, handle_whoreply },
 	{ "315", 1, handle_end_who },
-- 
2.43.0


From ff75438641c63a32f30240aa05827f556df039c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:50 +0000
Subject: [PATCH 82/96] fix: lines that consist of nothing but a prefix crash
 the proxy

---
 libirc/transport_ioc.c | 4 +++-
 src/network.c          | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 35f4f36..56a210b 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -315,7 +315,9 @@ static gboolean transport_receive(GIOChannel *c, GIOCondition cond,
 			status = irc_recv_line(c, backend_data->incoming_iconv, &error, &l);
 
 			if (status == G_IO_STATUS_NORMAL) {
-				ret = transport->callbacks->recv(transport, l);
+				/* There may be no more than a prefix on the line */
+				if (l != NULL)
+					ret = transport->callbacks->recv(transport, l);
 			} else {
 				ret = handle_recv_status(transport, status, error);
 			}
diff --git a/src/network.c b/src/network.c
index 566fbee..25fc911 100644
--- a/src/network.c
+++ b/src/network.c
@@ -193,6 +193,8 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 
 		for (i = 0; nc->autocmd && nc->autocmd[i]; i++) {
 			struct irc_line *l = irc_parse_line(nc->autocmd[i]);
+			if (l == NULL)
+				continue;
 			network_send_line(n, NULL, l);
 			free_line(l);
 		}
-- 
2.43.0


From 349c8c38932ed69bf337b6cc064011a823adf0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:50 +0000
Subject: [PATCH 83/96] fix: watch for a connection to become writable only
 once

---
 libirc/transport_ioc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 56a210b..97e0331 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -196,7 +196,7 @@ static gboolean irc_transport_iochannel_send_line(struct irc_transport *transpor
 		backend_data->outgoing_id = g_io_add_watch(backend_data->incoming, G_IO_OUT,
 										transport_send_queue, transport);
 		g_queue_push_tail(backend_data->pending_lines, linedup(l));
-		break;
+		return TRUE;
 	case G_IO_STATUS_EOF:
 		transport->callbacks->hangup(transport);
 		return FALSE;
-- 
2.43.0


From e206d00f6c61e66feb281104ef9cab41826e50e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:50 +0000
Subject: [PATCH 84/96] fix: handle ERROR and 433 from the server that lack
 parameters

---
 src/network.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/network.c b/src/network.c
index 25fc911..c30cede 100644
--- a/src/network.c
+++ b/src/network.c
@@ -152,13 +152,14 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 	} else if (!base_strcmp(l->args[0], "PONG")){
 		return TRUE;
 	} else if (!base_strcmp(l->args[0], "ERROR")) {
-		network_log(LOG_ERROR, n, "error: %s", l->args[1]);
+		network_log(LOG_ERROR, n, "error: %s", l->argc > 1?l->args[1]:"");
 	} else if (response == ERR_NICKNAMEINUSE &&
 			  n->connection.state == NETWORK_CONNECTION_STATE_LOGIN_SENT){
-		char *tmp = g_strdup_printf("%s_", l->args[2]);
+		const char *nick = (l->argc > 2)?l->args[2]:n->external_state->me.nick;
+		char *tmp = g_strdup_printf("%s_", nick);
 		network_send_args(n, "NICK", tmp, NULL);
 		network_log(LOG_WARNING, n, "%s was already in use, trying %s",
-					l->args[2], tmp);
+					nick, tmp);
 		network_nick_set_nick(&n->external_state->me, tmp);
 		g_free(tmp);
 	} else if ((response == RPL_ENDOFMOTD || response == ERR_NOMOTD) &&
-- 
2.43.0


From 8f70cb6521f411c65287ed9d2a293d3256e22129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:50 +0000
Subject: [PATCH 85/96] fix: CTCP messages without origin crash the proxy

---
 src/network.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index c30cede..96c8e8e 100644
--- a/src/network.c
+++ b/src/network.c
@@ -217,7 +217,9 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 			linestack_store &= (!redirect_response(n->queries, n, l));
 		} else {
 			if (n->clients == NULL) {
-				if (!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
+				if (l->origin == NULL) {
+					/* There is nobody to reply to */
+				} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
 					l->args[2][0] == '\001' &&
 					base_strncmp(l->args[2], "\001ACTION", 7) != 0) {
 					network_process_ctcp_request(n, l);
-- 
2.43.0


From d761c2329de2113a978b4e53eb6f22dfcf948bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:50 +0000
Subject: [PATCH 86/96] fix: messages without text crash the proxy when times
 are reported or highlights replayed

---
 src/network.c       | 2 +-
 src/repl_backends.c | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index 96c8e8e..e816b83 100644
--- a/src/network.c
+++ b/src/network.c
@@ -228,7 +228,7 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 					ctcp_network_redirect_response(n, l);
 				}
 			} else if (run_server_filter(n, l, FROM_SERVER)) {
-				if (!strcmp(l->args[0], "PRIVMSG") &&
+				if (!strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
 					n->global->config->report_time == REPORT_TIME_ALWAYS) {
 					struct irc_line *nl = linedup(l);
 					line_prefix_time(nl, time(NULL)+n->global->config->report_time_offset);
diff --git a/src/repl_backends.c b/src/repl_backends.c
index ed39277..e5b1217 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -34,6 +34,9 @@ static gboolean check_highlight(struct irc_line *l, time_t t, void *userdata)
 		base_strcmp(l->args[0], "NOTICE") != 0)
 		return TRUE;
 
+	if (l->argc < 3)
+		return TRUE;
+
 	for (i = 0; matches && matches[i]; i++) {
 		if (strstr(l->args[2], matches[i]) != NULL) {
 			return client_send_line(c, l, NULL);
-- 
2.43.0


From 80664ff585e21311992580ecf2bcb8abf8d86ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:50 +0000
Subject: [PATCH 87/96] fix: incomplete USERHOST, WHO and WHOIS replies make
 the proxy read or write past their end

---
 src/client.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client.c b/src/client.c
index 4117b2a..ae2acb0 100644
--- a/src/client.c
+++ b/src/client.c
@@ -378,7 +378,7 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 	}
 	switch (irc_line_respcode(l)) {
 		case RPL_USERHOST:
-		if (strstr(l->args[2], old->hostname)) {
+		if (l->argc > 2 && strstr(l->args[2], old->hostname)) {
 			int i;
 			gchar **users = g_strsplit(g_strstrip(l->args[2]), " ", 0);
 			for (i = 0; users[i]; i++) {
@@ -402,7 +402,7 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 		}
 		break;
 		case RPL_WHOREPLY:
-		if (l->argc >= 6) {
+		if (l->argc > 6) {
 			if (!irccmp(info, l->args[6], old->nick)) {
 				ret = linedup(l);
 				g_free(ret->args[4]);
@@ -415,7 +415,7 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 		break;
 		case RPL_WHOISUSER:
 		case RPL_WHOWASUSER:
-		if (l->argc >= 4) {
+		if (l->argc > 4) {
 			if (!irccmp(info, l->args[2], old->nick)) {
 				ret = linedup(l);
 				g_free(ret->args[4]);
-- 
2.43.0


From 5c2207e725dba3f11b300e390eb73dde6c78844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:07 +0000
Subject: [PATCH 88/96] fix: never use an empty nick to log in with

---
 libirc/client.c | 2 +-
 libirc/state.c  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 4e2154f..35dadf5 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -307,7 +307,7 @@ static gboolean process_from_pending_client(struct irc_client *client,
 					    const struct irc_line *l)
 {
 	if (!base_strcmp(l->args[0], "NICK")) {
-		if (l->argc < 2) {
+		if (l->argc < 2 || l->args[1][0] == '\0') {
 			client_send_response(client, ERR_NEEDMOREPARAMS,
 					     l->args[0], "Not enough parameters", NULL);
 			return TRUE;
diff --git a/libirc/state.c b/libirc/state.c
index 2e7bd8b..3288095 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1069,7 +1069,8 @@ static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
 
 static void handle_001(struct irc_network_state *s, const struct irc_line *l)
 {
-	network_nick_set_nick(&s->me, l->args[1]);
+	if (l->args[1][0] != '\0')
+		network_nick_set_nick(&s->me, l->args[1]);
 }
 
 static void handle_004(struct irc_network_state *s, const struct irc_line *l)
-- 
2.43.0


From d9fddca5bcc9fed831f2a922b905a2c00bf733e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:29 +0000
Subject: [PATCH 89/96] fix: messages without text from clients crash the proxy
 when times are reported

---
 src/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index e816b83..27f7662 100644
--- a/src/network.c
+++ b/src/network.c
@@ -581,7 +581,7 @@ gboolean network_forward_line(struct irc_network *s, struct irc_client *c,
 		struct irc_line *nl = linedup(l);
 		g_free(nl->origin);
 		nl->origin = g_strdup(s->external_state->me.hostmask);
-		if (s->global->config->report_time == REPORT_TIME_ALWAYS) {
+		if (l->argc > 2 && s->global->config->report_time == REPORT_TIME_ALWAYS) {
 			line_prefix_time(nl, time(NULL)+s->global->config->report_time_offset);
 		}
 
-- 
2.43.0


From 4c6e46051d45101b39f4ac817e7073979459c0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:02 +0000
Subject: [PATCH 90/96] fix: ignore hostmasks without a nick

---
 libirc/state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/state.c b/libirc/state.c
index 3288095..2969827 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -125,7 +125,7 @@ gboolean network_nick_set_hostmask(struct network_nick *n, const char *hm)
 		return TRUE;
 
 	t = strchr(hm, '!');
-	if (!t)
+	if (!t || t == hm)
 		return FALSE;
 
 	u = strchr(t, '@');
-- 
2.43.0


From 3a9562430ba6d4e349376f5815f6b66667f825be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:54 +0000
Subject: [PATCH 91/96] fix: names to log in with that can't be read from the
 configuration crash the proxy

---
 src/settings.c | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 777043e..30f33d2 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -619,6 +619,29 @@ static struct channel_config *config_find_add_channel(struct network_config *nc,
 	return cc;
 }
 
+/* Load a name to log in with, unless it can't be used */
+static void load_network_name(GKeyFile *kf, const char *groupname, const char *key,
+							  const char *networkname, char **value)
+{
+	char *name;
+
+	if (!g_key_file_has_key(kf, groupname, key, NULL))
+		return;
+
+	name = g_key_file_get_string(kf, groupname, key, NULL);
+	if (name == NULL || !strcmp(name, "") || name[0] == ' ')
+		log_global(LOG_WARNING, "Invalid %s `%s' set for network `%s'", key,
+				   name?name:"", networkname);
+
+	if (name == NULL || !strcmp(name, "")) {
+		g_free(name);
+		return;
+	}
+
+	g_free(*value);
+	*value = name;
+}
+
 static struct network_config *config_load_network_keyfile_group(struct ctrlproxy_config *cfg,
 																const char *networkname,
 																GKeyFile *kf,
@@ -632,19 +655,8 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 	n->keyfile = kf;
 	n->groupname = g_strdup(groupname);
 
-	if (g_key_file_has_key(kf, groupname, "fullname", NULL)) {
-		g_free(n->fullname);
-		n->fullname = g_key_file_get_string(kf, groupname, "fullname", NULL);
-		if (!strcmp(n->fullname, "") || n->fullname[0] == ' ')
-			log_global(LOG_WARNING, "Invalid fullname `%s' set for network `%s'", n->fullname, n->name);
-	}
-
-	if (g_key_file_has_key(kf, groupname, "nick", NULL)) {
-		g_free(n->nick);
-		n->nick = g_key_file_get_string(kf, groupname, "nick", NULL);
-		if (!strcmp(n->nick, "") || n->nick[0] == ' ')
-			log_global(LOG_WARNING, "Invalid nick name `%s' set for `%s'", n->nick, n->name);
-	}
+	load_network_name(kf, groupname, "fullname", networkname, &n->fullname);
+	load_network_name(kf, groupname, "nick", networkname, &n->nick);
 
 	if (g_key_file_has_key(kf, groupname, "reconnect-interval", NULL)) {
 		n->reconnect_interval = g_key_file_get_integer(kf, groupname, "reconnect-interval", NULL);
@@ -654,12 +666,7 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 		n->queue_speed = g_key_file_get_integer(kf, groupname, "queue-speed", NULL);
 	}
 
-	if (g_key_file_has_key(kf, groupname, "username", NULL)) {
-		g_free(n->username);
-		n->username = g_key_file_get_string(kf, groupname, "username", NULL);
-		if (!strcmp(n->username, "") || n->username[0] == ' ')
-			log_global(LOG_WARNING, "Invalid username `%s' set for network `%s'", n->username, n->name);
-	}
+	load_network_name(kf, groupname, "username", networkname, &n->username);
 
 	if (g_key_file_has_key(kf, groupname, "ignore_first_nick", NULL)) {
 		n->ignore_first_nick = g_key_file_get_boolean(kf, groupname, "ignore_first_nick", NULL);
-- 
2.43.0


From 1abdef5576174c9bf2f1a306d6233ba8e476de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:51 +0000
Subject: [PATCH 92/96] fix: don't log in with the empty names of a client

---
 src/network.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/network.c b/src/network.c
index 27f7662..29e8c7b 100644
--- a/src/network.c
+++ b/src/network.c
@@ -321,8 +321,10 @@ struct irc_network *find_network_by_hostname(struct global *global,
 		nc->name = g_strdup(hostname);
 		if (login_details != NULL) {
 			nc->nick = g_strdup(login_details->nick);
-			nc->username = g_strdup(login_details->username);
-			nc->fullname = g_strdup(login_details->realname);
+			if (login_details->username != NULL && login_details->username[0] != '\0')
+				nc->username = g_strdup(login_details->username);
+			if (login_details->realname != NULL && login_details->realname[0] != '\0')
+				nc->fullname = g_strdup(login_details->realname);
 			nc->password = g_strdup(login_details->password);
 		}
 		nc->type = NETWORK_TCP;
-- 
2.43.0


From 07614bcf08411f17c2ef8775324a67f9fca25f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:48 +0000
Subject: [PATCH 93/96] fix: tell clients what the network supports in a way
 the proxy's own view of them understands

The list was one argument, so the status prefixes, channel types and case
mapping of the network were never known for a client and members with
another status than op or voice lost it in the lists sent to clients.
---
 src/client.c | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/client.c b/src/client.c
index ae2acb0..53ea538 100644
--- a/src/client.c
+++ b/src/client.c
@@ -27,6 +27,7 @@
 #include <sys/socket.h>
 #include <netdb.h>
 
+#include <string.h>
 #include "internals.h"
 #include "irc.h"
 
@@ -138,6 +139,35 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 	return TRUE;
 }
 
+/**
+ * Tell a client what the network supports.
+ *
+ * @param client Client to talk to.
+ */
+static void client_send_features(struct irc_client *client)
+{
+	char *features, **tokens;
+	struct irc_line *l;
+
+	features = network_generate_feature_string(client->network);
+	tokens = g_strsplit(features, " ", 0);
+	g_free(features);
+
+	/* Each feature is an argument of its own */
+	l = g_new0(struct irc_line, 1);
+	l->origin = g_strdup(client->default_origin);
+	l->argc = g_strv_length(tokens) + 3;
+	l->args = g_new0(char *, l->argc + 1);
+	l->args[0] = g_strdup_printf("%03d", RPL_BOUNCE);
+	l->args[1] = g_strdup(client_get_default_target(client));
+	memcpy(l->args + 2, tokens, g_strv_length(tokens) * sizeof(char *));
+	l->args[l->argc-1] = g_strdup("are supported on this server");
+	g_free(tokens);
+
+	client_send_line(client, l, NULL);
+	free_line(l);
+}
+
 /**
  * Send welcome information to a client, optionally disconnecting
  * the client if it isn't welcome.
@@ -147,7 +177,7 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
  */
 static gboolean welcome_client(struct irc_client *client)
 {
-	char *features, *tmp;
+	char *tmp;
 	struct network_config *nc;
 
 	g_assert(client != NULL);
@@ -178,12 +208,7 @@ static gboolean welcome_client(struct irc_client *client)
 		 (client->network->external_state != NULL && client->network->info->supported_channel_modes)?client->network->info->supported_channel_modes:ALLMODES,
 		 NULL);
 
-	features = network_generate_feature_string(client->network);
-
-	client_send_response(client, RPL_BOUNCE, features,
-						 "are supported on this server", NULL);
-
-	g_free(features);
+	client_send_features(client);
 
 	if (client->network->external_state != NULL) {
 		client_send_luserchannels(client, g_list_length(client->network->external_state->channels));
-- 
2.43.0


From d469830dbdcde802e9cd1d60617e6fdca83551f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:03 +0000
Subject: [PATCH 94/96] fix: tell attached clients when the network turns out
 to support other things than they were told

---
 src/client.c    |  2 +-
 src/internals.h |  1 +
 src/network.c   | 11 +++++++++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/client.c b/src/client.c
index 53ea538..d2130d2 100644
--- a/src/client.c
+++ b/src/client.c
@@ -144,7 +144,7 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
  *
  * @param client Client to talk to.
  */
-static void client_send_features(struct irc_client *client)
+void client_send_features(struct irc_client *client)
 {
 	char *features, **tokens;
 	struct irc_line *l;
diff --git a/src/internals.h b/src/internals.h
index 0f6c58f..0244aae 100644
--- a/src/internals.h
+++ b/src/internals.h
@@ -98,6 +98,7 @@ G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT G_GNUC_MALLOC struct irc_client *clien
 										   GIOChannel *io,
 										   const char *desc);
 
+void client_send_features(struct irc_client *client);
 G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT G_GNUC_MALLOC struct irc_client *client_init(
 										   struct irc_network *net,
 										   struct irc_transport *transport,
diff --git a/src/network.c b/src/network.c
index 29e8c7b..92a4d31 100644
--- a/src/network.c
+++ b/src/network.c
@@ -166,6 +166,7 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 			   n->connection.state == NETWORK_CONNECTION_STATE_LOGIN_SENT) {
 		int i;
 		GList *gl;
+		char *features, *new_features;
 		n->connection.state = NETWORK_CONNECTION_STATE_MOTD_RECVD;
 
 		/* Always save networks we've successfully connected to. */
@@ -178,7 +179,17 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 
 		network_log(LOG_INFO, n, "Successfully logged in");
 
+		features = network_generate_feature_string(n);
 		network_update_isupport(n->info, n->external_state->info);
+		new_features = network_generate_feature_string(n);
+
+		/* Clients that are attached already know the old ones */
+		if (strcmp(features, new_features) != 0) {
+			for (gl = n->clients; gl; gl = gl->next)
+				client_send_features(gl->data);
+		}
+		g_free(features);
+		g_free(new_features);
 
 		/* The server may have changed the nick and other things while
 		 * logging in; the backlog starts with how things are now. */
-- 
2.43.0


From 72911791083f513ac12363919874bb9131b9b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:43 +0000
Subject: [PATCH 95/96] fix: answers to WHO from the cache show the status
 members had when it was filled

---
 src/cache.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/cache.c b/src/cache.c
index b239404..f1a2c65 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -131,6 +131,24 @@ static gboolean client_try_cache_userhost(struct irc_client *c, struct irc_netwo
 	return FALSE;
 }
 
+/* The flags of a nick as they are now, with the status it has now rather
+ * than the one it had when they were last sent. */
+static char *who_flags(struct irc_network_state *net, struct channel_nick *cn)
+{
+	GString *flags = g_string_new(NULL);
+	const char *p;
+	char prefix = get_prefix_from_modes(net->info, cn->modes);
+
+	for (p = cn->last_flags; p != NULL && *p; p++) {
+		if (!is_prefix(*p, net->info))
+			g_string_append_c(flags, *p);
+	}
+	if (prefix != 0)
+		g_string_append_c(flags, prefix);
+
+	return g_string_free(flags, FALSE);
+}
+
 static gboolean client_try_cache_who(struct irc_client *c, struct irc_network_state *net, struct irc_line *l, const struct cache_settings *settings)
 {
 	struct irc_channel_state *ch;
@@ -196,11 +214,13 @@ static gboolean client_try_cache_who(struct irc_client *c, struct irc_network_st
 		struct channel_nick *cn = gl->data;
 		struct network_nick *nn = cn->global_nick;
 		char *info = g_strdup_printf("%d %s", nn->hops, nn->fullname);
+		char *flags = who_flags(net, cn);
 
 		client_send_response(c, RPL_WHOREPLY, l->args[1], nn->username,
 				     nn->hostname, nn->server, nn->nick,
-				     cn->last_flags, info, NULL);
+				     flags, info, NULL);
 
+		g_free(flags);
 		g_free(info);
 	}
 
-- 
2.43.0


From c7bde17d042e6456a513f49259df6964db3f1e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:37 +0000
Subject: [PATCH 96/96] fix: replayed states are built without knowing what the
 network supports

---
 libirc/linestack.c | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index be52a31..285ba7f 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -1062,6 +1062,42 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 	return ret;
 }
 
+/* What the network supports decides how names are compared and modes are
+ * understood, so it goes before the things it applies to. */
+static gboolean marshall_network_info(struct irc_network_state *n, int level,
+									  enum marshall_mode m, GIOChannel *t)
+{
+	gboolean ret;
+	char *info = NULL, **features;
+	int i, casemapping = n->info->casemapping;
+
+	if (m == MARSHALL_PUSH) {
+		info = network_info_string(n->info);
+		ret = marshall_string(n, "supports", level, m, t, &info);
+		g_free(info);
+		return ret && marshall_int(n, "casemapping", level, m, t, &casemapping);
+	}
+
+	ret = marshall_string(n, "supports", level, m, t, &info);
+	if (!ret || info == NULL)
+		return FALSE;
+
+	features = g_strsplit(info, " ", -1);
+	for (i = 0; features[i] != NULL; i++) {
+		if (features[i][0] != '\0')
+			network_info_parse(n->info, features[i]);
+	}
+	g_strfreev(features);
+	g_free(info);
+
+	/* Networks that don't announce a case mapping have no name for it */
+	if (!marshall_int(n, "casemapping", level, m, t, &casemapping))
+		return FALSE;
+	n->info->casemapping = casemapping;
+
+	return TRUE;
+}
+
 static gboolean marshall_network_state(enum marshall_mode m, GIOChannel *t,
 									   struct irc_network_state *n)
 {
@@ -1071,7 +1107,8 @@ static gboolean marshall_network_state(enum marshall_mode m, GIOChannel *t,
 		g_free(n->me.hostmask);
 		n->me.hostmask = NULL;
 	}
-	ret = marshall_network_nick(n, "me", 0, m, t, &n->me) &&
+	ret = marshall_network_info(n, 0, m, t) &&
+		marshall_network_nick(n, "me", 0, m, t, &n->me) &&
 		marshall_GList(n, "nicks", 0, m, t, &n->nicks, (marshall_fn_t)marshall_network_nick_p) &&
 		marshall_GList(n, "channels", 0, m, t, &n->channels, (marshall_fn_t)marshall_channel_state);
 
-- 
2.43.0

