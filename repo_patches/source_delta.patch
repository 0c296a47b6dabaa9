From 3f828294d208aa1fa058c73b5cdc7f3441e8bab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:43 +0000
Subject: [PATCH 01/86] fix: print the name of an unset admin setting, not the
 setting structure

---
 src/admin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/admin.c b/src/admin.c
index a750e9e..75a157e 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1679,7 +1679,7 @@ static void cmd_set(admin_handle h, const char * const *args, void *userdata)
 		for (i = 0; settings[i].name != NULL; i++) {
 			tmp = settings[i].get(h);
 			if (tmp == NULL) {
-				admin_out(h, "%s is not set", settings[i]);
+				admin_out(h, "%s is not set", settings[i].name);
 			} else {
 				admin_out(h, "%s = %s", settings[i].name, tmp);
 			}
-- 
2.43.0


From 0119120323cbb14a8f5d35454acad0fde97cb5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:20 +0000
Subject: [PATCH 02/86] fix: accept ISUPPORT tokens that come without a value

---
 libirc/isupport.c | 52 ++++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/libirc/isupport.c b/libirc/isupport.c
index b4656a8..904ac5c 100644
--- a/libirc/isupport.c
+++ b/libirc/isupport.c
@@ -384,6 +384,7 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 {
 	char *sep;
 	char *key, *val;
+	const char *value; /* Like val, but "" if the token has no value */
 
 	sep = strchr(parameter, '=');
 
@@ -394,18 +395,19 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		key = g_strndup(parameter, sep - parameter);
 		val = g_strdup(sep+1);
 	}
+	value = (val != NULL)?val:"";
 
 	if (!base_strcmp(key, "CASEMAPPING")) {
-		if (!base_strcmp(val, "rfc1459")) {
+		if (!base_strcmp(value, "rfc1459")) {
 			info->casemapping = CASEMAP_RFC1459;
-		} else if (!base_strcmp(val, "strict-rfc1459")) {
+		} else if (!base_strcmp(value, "strict-rfc1459")) {
 			info->casemapping = CASEMAP_STRICT_RFC1459;
-		} else if (!base_strcmp(val, "ascii")) {
+		} else if (!base_strcmp(value, "ascii")) {
 			info->casemapping = CASEMAP_ASCII;
 		} else {
 			info->casemapping = CASEMAP_UNKNOWN;
 			network_info_log(LOG_WARNING, info,
-							 "Unknown CASEMAPPING value '%s'", val);
+							 "Unknown CASEMAPPING value '%s'", value);
 		}
 	} else if (!base_strcmp(key, "NETWORK")) {
 		g_free(info->name);
@@ -414,37 +416,37 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		g_free(info->ircd);
 		info->ircd = g_strdup(val);
 	} else if (!base_strcmp(key, "NICKLEN") || !base_strcmp(key, "MAXNICKLEN")) {
-		info->nicklen = atoi(val);
+		info->nicklen = atoi(value);
 	} else if (!base_strcmp(key, "USERLEN")) {
-		info->userlen = atoi(val);
+		info->userlen = atoi(value);
 	} else if (!base_strcmp(key, "HOSTLEN")) {
-		info->hostlen = atoi(val);
+		info->hostlen = atoi(value);
 	} else if (!base_strcmp(key, "OVERRIDE")) {
 		info->operoverride = TRUE;
 	} else if (!base_strcmp(key, "CHANNELLEN") || !base_strcmp(key, "MAXCHANNELLEN")) {
-		info->channellen = atoi(val);
+		info->channellen = atoi(value);
 	} else if (!base_strcmp(key, "AWAYLEN")) {
-		info->awaylen = atoi(val);
+		info->awaylen = atoi(value);
 	} else if (!base_strcmp(key, "KICKLEN")) {
-		info->kicklen = atoi(val);
+		info->kicklen = atoi(value);
 	} else if (!base_strcmp(key, "TOPICLEN")) {
-		info->topiclen = atoi(val);
+		info->topiclen = atoi(value);
 	} else if (!base_strcmp(key, "WATCH")) {
-		info->watch = atoi(val);
+		info->watch = atoi(value);
 	} else if (!base_strcmp(key, "VBANLIST")) {
 		info->vbanlist = TRUE;
 	} else if (!base_strcmp(key, "MAXPARA")) {
-		info->maxpara = atoi(val);
+		info->maxpara = atoi(value);
 	} else if (!base_strcmp(key, "MAXCHANNELS")) {
-		info->maxchannels = atoi(val);
+		info->maxchannels = atoi(value);
 	} else if (!base_strcmp(key, "MAXTARGETS")) {
-		info->maxtargets = atoi(val);
+		info->maxtargets = atoi(value);
 	} else if (!base_strcmp(key, "REMOVE")) {
 		info->remove = TRUE;
 	} else if (!base_strcmp(key, "MAXBANS")) {
-		info->maxbans = atoi(val);
+		info->maxbans = atoi(value);
 	} else if (!base_strcmp(key, "MODES")) {
-		info->maxmodes = atoi(val);
+		info->maxmodes = atoi(value);
 	} else if (!base_strcmp(key, "WALLCHOPS")) {
 		info->wallchops = TRUE;
 	} else if (!base_strcmp(key, "MAP")) {
@@ -486,7 +488,7 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 	} else if (!base_strcmp(key, "UHNAMES")) {
 		info->uhnames = TRUE;
 	} else if (!base_strcmp(key, "KEYLEN")) {
-		info->keylen = atoi(val);
+		info->keylen = atoi(value);
 	} else if (!base_strcmp(key, "SILENCE")) {
 		if (val) {
 			info->silence_limit = atoi(val);
@@ -500,7 +502,7 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		g_strfreev(info->chanmodes);
 		info->chanmodes_a = info->chanmodes_b =
 			info->chanmodes_c = info->chanmodes_d = NULL;
-		info->chanmodes = g_strsplit(val, ",", 4);
+		info->chanmodes = g_strsplit(value, ",", 4);
 		if (g_strv_length(info->chanmodes) != 4) {
 			network_info_log(LOG_WARNING, info, "Expected 4-tuple for CHANMODES, received tuple was of size %d", g_strv_length(info->chanmodes));
 		} else {
@@ -532,8 +534,8 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 			info->invex_mode = val[0];
 	} else if (!base_strcmp(key, "ELIST")) {
 		int i;
-		for (i = 0; val[i]; i++) {
-			switch (val[i]) {
+		for (i = 0; value[i]; i++) {
+			switch (value[i]) {
 			case 'M': info->elist_mask_search = TRUE; break;
 			case 'N': info->elist_inverse_mask_search = TRUE; break;
 			case 'T': info->elist_topic_search = TRUE; break;
@@ -541,7 +543,7 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 			case 'C': info->elist_creation_time_search = TRUE; break;
 			default:
 				  network_info_log(LOG_WARNING, info,
-								   "Unknown ELIST parameter '%c'", val[i]);
+								   "Unknown ELIST parameter '%c'", value[i]);
 				  break;
 			}
 		}
@@ -575,12 +577,12 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		g_free(info->statusmsg);
 		info->statusmsg = g_strdup(val);
 	} else if (!base_strcmp(key, "PREFIX")) {
-		if (strlen(val) > 0 && (val[0] != '(' || !strchr(val, ')'))) {
+		if (strlen(value) > 0 && (value[0] != '(' || !strchr(value, ')'))) {
 			network_info_log(LOG_WARNING, info,
-							 "Malformed PREFIX data `%s'", val);
+							 "Malformed PREFIX data `%s'", value);
 		} else {
 			g_free(info->prefix);
-			info->prefix = g_strdup(val);
+			info->prefix = g_strdup(value);
 		}
 	} else if (!base_strcmp(key, "CHARSET")) {
 		g_free(info->charset);
-- 
2.43.0


From 48523b3c036f48e86e48cc7ce94d9e77173bec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:21 +0000
Subject: [PATCH 03/86] fix: don't read past the parts of an empty EXTBAN value

---
 libirc/isupport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/isupport.c b/libirc/isupport.c
index 904ac5c..8ec02c6 100644
--- a/libirc/isupport.c
+++ b/libirc/isupport.c
@@ -564,7 +564,7 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		} else {
 			char **parts = g_strsplit(val, ",", 2);
 			info->extban_prefix = parts[0];
-			info->extban_supported = parts[1];
+			info->extban_supported = (parts[0] != NULL)?parts[1]:NULL;
 			g_free(parts);
 		}
 	} else if (!base_strcmp(key, "MAXLIST")) {
-- 
2.43.0


From be882e55dea5fd240c6a462dbacf5e623de6f582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:37 +0000
Subject: [PATCH 04/86] fix: ignore TOPIC for a channel we are not on

---
 libirc/state.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libirc/state.c b/libirc/state.c
index e5088be..9a96f59 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -611,6 +611,12 @@ static void handle_topic(struct irc_network_state *s, const struct irc_line *l)
 
 	CHECK_ORIGIN(s, l, "TOPIC");
 
+	if (c == NULL) {
+		network_state_log(LOG_WARNING, s,
+					"Can't set topic for unknown channel '%s'!", l->args[1]);
+		return;
+	}
+
 	if (c->topic != NULL) {
 		g_free(c->topic);
 	}
-- 
2.43.0


From 4da9c3c4bd55e207723695c518de33c610327ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:38 +0000
Subject: [PATCH 05/86] fix: 333 needs the time parameter it reads

---
 libirc/state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/state.c b/libirc/state.c
index 9a96f59..7cb0210 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1193,7 +1193,7 @@ static struct irc_command {
 	{ "324", 3, handle_324 },
 	{ "329", 3, handle_329 },
 	{ "332", 3, handle_332 },
-	{ "333", 3, handle_333 },
+	{ "333", 4, handle_333 },
 	{ "331", 1, handle_no_topic },
 	{ "353", 4, handle_namreply },
 	{ "366", 2, handle_end_names },
-- 
2.43.0


From 25bfc4fd68d0cde30b7cddaa40499b2e6a338177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:39 +0000
Subject: [PATCH 06/86] fix: channel list entry replies need the mask they
 store

---
 libirc/state.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 7cb0210..1402669 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1197,11 +1197,11 @@ static struct irc_command {
 	{ "331", 1, handle_no_topic },
 	{ "353", 4, handle_namreply },
 	{ "366", 2, handle_end_names },
-	{ "367", 2, handle_banlist_entry },
+	{ "367", 3, handle_banlist_entry },
 	{ "368", 2, handle_end_banlist },
-	{ "346", 2, handle_invitelist_entry },
+	{ "346", 3, handle_invitelist_entry },
 	{ "347", 2, handle_end_invitelist },
-	{ "348", 2, handle_exceptlist_entry },
+	{ "348", 3, handle_exceptlist_entry },
 	{ "349", 2, handle_end_exceptlist },
 	{ "352", 8, handle_whoreply },
 	{ "315", 1, handle_end_who },
-- 
2.43.0


From d0dca568e20306403a98a8a626179210406af676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:40 +0000
Subject: [PATCH 07/86] fix: don't skip the away flag of an empty USERHOST
 entry

---
 libirc/state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/state.c b/libirc/state.c
index 1402669..92f4db5 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1155,7 +1155,7 @@ static void handle_302(struct irc_network_state *s, const struct irc_line *l)
 	for (i = 0; users[i]; i++) {
 		/* We got a USERHOST response, split it into nick and user@host, and check the nick */
 		gchar** tmp302 = g_strsplit(users[i], "=", 2);
-		if (g_strv_length(tmp302) > 1) {
+		if (g_strv_length(tmp302) > 1 && tmp302[1][0] != '\0') {
 			char *hm;
 			struct network_nick *nn;
 			/* FIXME: Strip *'s from the end of tmp302[0]*/
-- 
2.43.0


From 62e9ea0f6589c6e619d62d9ceec7f3d9d5c9a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:59 +0000
Subject: [PATCH 08/86] fix: reject a stored network state in which a value is
 missing

---
 libirc/linestack.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 873f9e4..5b09626 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -787,7 +787,7 @@ static gboolean marshall_bool(struct irc_network_state *nst, const char *name,
 		gboolean ret;
 		char *val;
 		ret = marshall_get(t, level, name, &val);
-		if (!ret) return FALSE;
+		if (!ret || val == NULL) return FALSE;
 
 		if (!strcmp(val, "true")) { *n = TRUE; g_free(val); return TRUE; }
 		if (!strcmp(val, "false")) { *n = FALSE; g_free(val); return TRUE; }
@@ -808,7 +808,7 @@ static gboolean marshall_char(struct irc_network_state *nst, const char *name, i
 	} else {
 		char *d;
 		gboolean ret = marshall_get(t, level, name, &d);
-		if (!ret) return FALSE;
+		if (!ret || d == NULL) return FALSE;
 
 		*n = d[0];
 
@@ -830,7 +830,7 @@ static gboolean marshall_int(struct irc_network_state *nst, const char *name, in
 	} else {
 		char *tmp;
 		gboolean ret = marshall_get(t, level, name, &tmp);
-		if (!ret) return FALSE;
+		if (!ret || tmp == NULL) return FALSE;
 
 		*n = atoi(tmp);
 
@@ -852,7 +852,7 @@ static gboolean marshall_time(struct irc_network_state *nst, const char *name, i
 	} else {
 		char *tmp;
 		gboolean ret = marshall_get(t, level, name, &tmp);
-		if (!ret) return FALSE;
+		if (!ret || tmp == NULL) return FALSE;
 
 		*n = strtol(tmp, NULL, 0);
 
-- 
2.43.0


From 8ebbbef677fd3fdc204dd7c5f0217cc72ba551d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:30 +0000
Subject: [PATCH 09/86] fix: don't crash on a PRIVMSG from a client without a
 target

---
 src/client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.c b/src/client.c
index 3f7d920..8d0e774 100644
--- a/src/client.c
+++ b/src/client.c
@@ -94,7 +94,7 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 	} else if (!base_strcmp(l->args[0], "CTRLPROXY")) {
 		admin_process_command(c, l, 1);
 	} else if (c->network->global->config->admin_user != NULL &&
-			   !base_strcmp(l->args[0], "PRIVMSG") &&
+			   !base_strcmp(l->args[0], "PRIVMSG") && l->argc > 1 &&
 			   !base_strcmp(l->args[1], c->network->global->config->admin_user)) {
 		admin_process_command(c, l, 2);
 	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
-- 
2.43.0


From 9c6da62dede6eb1df9a11d28946676cc329b6967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:31 +0000
Subject: [PATCH 10/86] fix: check the parameter count of replies before
 replacing the hostmask

---
 src/client.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/client.c b/src/client.c
index 8d0e774..b4ba18a 100644
--- a/src/client.c
+++ b/src/client.c
@@ -368,12 +368,13 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 	}
 	switch (irc_line_respcode(l)) {
 		case RPL_USERHOST:
-		if (strstr(l->args[2], old->hostname)) {
+		if (l->argc > 2 && old->hostname != NULL &&
+			strstr(l->args[2], old->hostname)) {
 			int i;
 			gchar **users = g_strsplit(g_strstrip(l->args[2]), " ", 0);
 			for (i = 0; users[i]; i++) {
 				gchar** tmp302 = g_strsplit(users[i], "=", 2);
-				if (g_strv_length(tmp302) > 1) {
+				if (g_strv_length(tmp302) > 1 && tmp302[1][0] != '\0') {
 					/* FIXME: strip *'s from the end of tmp302[0] */
 					if (!irccmp(info, tmp302[0], old->nick)) {
 						g_free(users[i]);
@@ -392,7 +393,7 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 		}
 		break;
 		case RPL_WHOREPLY:
-		if (l->argc >= 6) {
+		if (l->argc > 6) {
 			if (!irccmp(info, l->args[6], old->nick)) {
 				ret = linedup(l);
 				g_free(ret->args[4]);
@@ -405,7 +406,7 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 		break;
 		case RPL_WHOISUSER:
 		case RPL_WHOWASUSER:
-		if (l->argc >= 4) {
+		if (l->argc > 4) {
 			if (!irccmp(info, l->args[2], old->nick)) {
 				ret = linedup(l);
 				g_free(ret->args[4]);
-- 
2.43.0


From 0e5ab26c46938be4a7b55e4d266c7614888efb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:49 +0000
Subject: [PATCH 11/86] fix: don't abort while logging a line without a target

---
 src/log_custom.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/log_custom.c b/src/log_custom.c
index 441d592..184cf5a 100644
--- a/src/log_custom.c
+++ b/src/log_custom.c
@@ -118,10 +118,11 @@ static void file_write_target(struct log_custom_data *data,
 	if (fmt == NULL)
 		return;
 
-	g_assert(l->args[0] != NULL);
-	g_assert(l->args[1] != NULL);
+	/* Nothing to log without a target */
+	if (l->argc < 2)
+		return;
+
 	info = network_get_info(network);
-	g_assert(network->external_state->me.nick != NULL);
 
 	if (network->external_state != NULL &&
 		network->external_state->me.nick != NULL &&
@@ -143,6 +144,10 @@ static void file_write_channel_only(struct log_custom_data *data,
 	if (fmt == NULL)
 		return;
 
+	/* Nothing to log without a target */
+	if (l->argc < 2)
+		return;
+
 	file_write_line_target(data, network, fmt, l, l->args[1]);
 }
 
@@ -219,7 +224,7 @@ static gboolean log_custom_data(struct irc_network *network,
 		file_write_target(data, network, data->config->join, l);
 	} else if (dir == FROM_SERVER && !base_strcmp(l->args[0], "PART")) {
 		file_write_channel_only(data, network, data->config->part, l);
-	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->args[2] != NULL) {
+	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2) {
 		if (l->args[2][0] == '\001') {
 			l->args[2][strlen(l->args[2])-1] = '\0';
 			if (!g_ascii_strncasecmp(l->args[2], "\001ACTION ", 8)) {
-- 
2.43.0


From 6bac28706e850687f56ef4829ea89bd1b741c2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:51 +0000
Subject: [PATCH 12/86] fix: don't abort on a channel MODE without origin

---
 libirc/state.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 92f4db5..9aeef0b 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1006,9 +1006,12 @@ static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
 			return;
 		}
 
-		by_name = line_get_nick(l);
-		by = find_network_nick(s, by_name);
-		g_free(by_name);
+		by = NULL;
+		if (l->origin != NULL) {
+			by_name = line_get_nick(l);
+			by = find_network_nick(s, by_name);
+			g_free(by_name);
+		}
 
 		for(i = 0; l->args[2][i]; i++) {
 			switch(l->args[2][i]) {
-- 
2.43.0


From 31e39456b99470e3ef46adda3aa38a1b539c34d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:51 +0000
Subject: [PATCH 13/86] fix: don't abort on CTCP messages without origin

---
 src/ctcp.c          | 5 +++++
 src/ctcp_redirect.c | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ctcp.c b/src/ctcp.c
index 01b3fa2..321ad09 100644
--- a/src/ctcp.c
+++ b/src/ctcp.c
@@ -181,6 +181,11 @@ gboolean ctcp_process_request (struct irc_network *n, const struct irc_line *l)
 	gboolean ret = FALSE;
 	struct ctcp_handle h;
 
+	if (l->origin == NULL) {
+		network_log(LOG_WARNING, n, "Received CTCP request without origin!");
+		return FALSE;
+	}
+
 	h.network = n;
 	h.nick = line_get_nick(l);
 
diff --git a/src/ctcp_redirect.c b/src/ctcp_redirect.c
index 37c7931..c39e611 100644
--- a/src/ctcp_redirect.c
+++ b/src/ctcp_redirect.c
@@ -84,7 +84,14 @@ gboolean ctcp_network_redirect_response(struct irc_network *n, const struct irc_
 	GList *gl;
 	char *nick;
 
-	char *command = get_ctcp_command(l->args[2]);
+	char *command;
+
+	if (l->origin == NULL) {
+		network_log(LOG_WARNING, n, "Received CTCP reply without origin!");
+		return FALSE;
+	}
+
+	command = get_ctcp_command(l->args[2]);
 
 	nick = line_get_nick(l);
 
-- 
2.43.0


From c8fd2c22c73feeaf2d065428860f86612640b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:52 +0000
Subject: [PATCH 14/86] fix: don't crash on a CTCP request without a command

---
 src/ctcp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctcp.c b/src/ctcp.c
index 321ad09..43f4939 100644
--- a/src/ctcp.c
+++ b/src/ctcp.c
@@ -203,7 +203,7 @@ gboolean ctcp_process_request (struct irc_network *n, const struct irc_line *l)
 	for (gl = cmds; gl; gl = gl->next) {
 		struct ctcp_handler *hl = gl->data;
 
-		if (!strcasecmp(hl->name, args[0])) {
+		if (args[0] != NULL && !strcasecmp(hl->name, args[0])) {
 			if (hl->fn != NULL) {
 				hl->fn(&h, (const char **)args);
 			}
@@ -213,7 +213,7 @@ gboolean ctcp_process_request (struct irc_network *n, const struct irc_line *l)
 	}
 
 	for (i = 0; !ret && builtins[i].name; i++) {
-		if (!strcasecmp(builtins[i].name, args[0])) {
+		if (args[0] != NULL && !strcasecmp(builtins[i].name, args[0])) {
 			if (builtins[i].fn != NULL)
 				builtins[i].fn(&h, (const char **)args);
 			ret = TRUE;
-- 
2.43.0


From 2459e6169abc2ab9bb63de72ec0a040a91bea29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:30 +0000
Subject: [PATCH 15/86] fix: don't crash on NickServ and NICK lines without
 parameters

---
 src/nickserv.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/nickserv.c b/src/nickserv.c
index b335e47..2c68322 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -125,7 +125,7 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 	static char *nickattempt = NULL;
 
 	/* User has changed his/her nick. Check whether this nick needs to be identified */
-	if (dir == FROM_SERVER && !irccmp(n->info, l->args[0], "NICK") &&
+	if (dir == FROM_SERVER && l->argc > 1 && !irccmp(n->info, l->args[0], "NICK") &&
 	   nickattempt && !irccmp(n->info, nickattempt, l->args[1])) {
 		nickserv_identify_me(n, l->args[1]);
 	}
@@ -138,23 +138,24 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 		nickattempt = g_strdup(l->args[1]);
 	}
 
-	if (dir == TO_SERVER &&
+	if (dir == TO_SERVER && l->argc > 2 &&
 		(!irccmp(n->info, l->args[0], "PRIVMSG") || !irccmp(n->info, l->args[0], "NOTICE")) &&
 		(!irccmp(n->info, l->args[1], nickserv_nick(n)) &&
 		 !ircncmp(n->info, l->args[2], "IDENTIFY ", strlen("IDENTIFY ")))) {
 			cache_nickserv_pass(n, l->args[2] + strlen("IDENTIFY "));
 	}
 
-	if (dir == TO_SERVER &&
+	if (dir == TO_SERVER && l->argc > 2 &&
 		!irccmp(n->info, l->args[0], "NS") &&
 		!irccmp(n->info, l->args[1], "IDENTIFY")) {
 		cache_nickserv_pass(n, l->args[2]);
 	}
 
 	/* If we receive a nick-already-in-use message, ghost the current user */
-	if (dir == FROM_SERVER && atol(l->args[0]) == ERR_NICKNAMEINUSE) {
+	if (dir == FROM_SERVER && nickattempt != NULL &&
+		atol(l->args[0]) == ERR_NICKNAMEINUSE) {
 		const char *pass = nickserv_find_nick(n, nickattempt);
-		if (nickattempt && pass) {
+		if (pass) {
 			const char *nickserv_n = nickserv_nick(n);
 			char *raw;
 
-- 
2.43.0


From 8644d9aff98bb05df424405bbd7dd51baa8ff84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:30 +0000
Subject: [PATCH 16/86] fix: don't crash on a nickname-in-use reply without the
 nickname

---
 src/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index 3658a1e..d373778 100644
--- a/src/network.c
+++ b/src/network.c
@@ -128,7 +128,7 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 		return TRUE;
 	} else if (!base_strcmp(l->args[0], "ERROR")) {
 		network_log(LOG_ERROR, n, "error: %s", l->args[1]);
-	} else if (response == ERR_NICKNAMEINUSE &&
+	} else if (response == ERR_NICKNAMEINUSE && l->argc > 2 &&
 			  n->connection.state == NETWORK_CONNECTION_STATE_LOGIN_SENT){
 		char *tmp = g_strdup_printf("%s_", l->args[2]);
 		network_send_args(n, "NICK", tmp, NULL);
-- 
2.43.0


From ca4bc93094b67d253b49f244677e1a6f81dcd2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:31 +0000
Subject: [PATCH 17/86] fix: skip autosend lines that can not be parsed

---
 src/network.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/network.c b/src/network.c
index d373778..cdc3d8f 100644
--- a/src/network.c
+++ b/src/network.c
@@ -161,6 +161,8 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 
 		for (i = 0; nc->autocmd && nc->autocmd[i]; i++) {
 			struct irc_line *l = irc_parse_line(nc->autocmd[i]);
+			if (l == NULL)
+				continue;
 			network_send_line(n, NULL, l);
 			free_line(l);
 		}
-- 
2.43.0


From 1cb3ded8d8288dc26b360a5ff1598364d7c62ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:33 +0000
Subject: [PATCH 18/86] fix: don't prefix the time to a line without a message

---
 libirc/line.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libirc/line.c b/libirc/line.c
index de65fa8..2443dc0 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -456,6 +456,9 @@ gboolean line_prefix_time(struct irc_line *l, time_t t)
 	char *tmp;
 	gboolean action = FALSE;
 
+	if (l->argc < 3)
+		return FALSE;
+
 	if (l->args[2][0] == '\001') { /* CTCP */
 		/* Let's not touch any CTCP requests but actions */
 		if (strncmp(l->args[2]+1, "ACTION", strlen("ACTION")) != 0) {
-- 
2.43.0


From 90dd3a0ac7afeecce090ad811546f3feb523d16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:33 +0000
Subject: [PATCH 19/86] fix: don't look for highlights in a line without a
 message

---
 src/repl_backends.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/repl_backends.c b/src/repl_backends.c
index 3c69940..123e7f4 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -34,6 +34,9 @@ static gboolean check_highlight(struct irc_line *l, time_t t, void *userdata)
 		base_strcmp(l->args[0], "NOTICE") != 0)
 		return TRUE;
 
+	if (l->argc < 3)
+		return TRUE;
+
 	for (i = 0; matches && matches[i]; i++) {
 		if (strstr(l->args[2], matches[i]) != NULL) {
 			return client_send_line(c, l, NULL);
-- 
2.43.0


From 269e6107a0fec53858fb265bff4ac01bd933f75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:34 +0000
Subject: [PATCH 20/86] fix: don't crash when asked to send an empty line

---
 libirc/line.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libirc/line.c b/libirc/line.c
index 2443dc0..9b430ef 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -331,6 +331,8 @@ GIOStatus irc_sendf(GIOChannel *c, GIConv iconv,
 	r = g_strdup_vprintf(fmt, ap);
 	l = irc_parse_line(r);
 	g_free(r);
+	if (l == NULL)
+		return G_IO_STATUS_ERROR;
 	ret = irc_send_line(c, iconv, l, error);
 
 	free_line(l);
-- 
2.43.0


From 3c4ede8e12bad56f54ab67e61d7ec889ed6064ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:54 +0000
Subject: [PATCH 21/86] fix: reject a stored network state without counts or
 nick names

---
 libirc/linestack.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 5b09626..79648bf 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -888,7 +888,8 @@ static gboolean marshall_network_nick (struct irc_network_state *nst, const char
 	ret &= marshall_bool(nst, "query", level+1, m, t, &n->query);
 	ret &= marshall_modes(nst, "modes", level+1, m, t, n->modes);
 	ret &= marshall_string(nst, "nick", level+1, m, t, &n->nick);
-	g_assert(n->nick);
+	if (!ret || n->nick == NULL)
+		return FALSE;
 	ret &= marshall_string(nst, "fullname", level+1, m, t, &n->fullname);
 	ret &= marshall_string(nst, "username", level+1, m, t, &n->username);
 	ret &= marshall_string(nst, "hostname", level+1, m, t, &n->hostname);
@@ -921,10 +922,11 @@ static gboolean marshall_GList (struct irc_network_state *nst, const char *name,
 		int count;
 		int i;
 
-		marshall_int(nst, "count", level+1, m, t, &count);
-
 		*gl = NULL;
 
+		if (!marshall_int(nst, "count", level+1, m, t, &count))
+			return FALSE;
+
 		for (i = 0; i < count; i++) {
 			void *v;
 			char name[20];
@@ -1001,7 +1003,8 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 
 		(*c)->nicks = NULL;
 
-		marshall_int(nst, "count", level+2, m, t, &count);
+		if (!marshall_int(nst, "count", level+2, m, t, &count))
+			return FALSE;
 
 		for (i = 0; i < count; i++) {
 			struct channel_nick *cn;
@@ -1011,7 +1014,8 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 
 			marshall_struct(t, m, level+2, tmp);
 
-			if (!marshall_string(nst, "nick", level+3, m, t, &nick))
+			if (!marshall_string(nst, "nick", level+3, m, t, &nick) ||
+				nick == NULL)
 				return FALSE;
 
 			cn = find_add_channel_nick(*c, nick);
@@ -1062,8 +1066,6 @@ static gboolean marshall_network_state(enum marshall_mode m, GIOChannel *t,
 	ret &= marshall_GList(n, "nicks", 0, m, t, &n->nicks, (marshall_fn_t)marshall_network_nick_p);
 	ret &= marshall_GList(n, "channels", 0, m, t, &n->channels, (marshall_fn_t)marshall_channel_state);
 
-	g_assert(n->me.nick);
-
 	return ret;
 }
 
-- 
2.43.0


From e90332641ce7c8a4157b52c7eae17f439ad2dd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:04 +0000
Subject: [PATCH 22/86] fix: don't abort when SSL can't be set up for a new
 client

---
 libirc/listener.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libirc/listener.c b/libirc/listener.c
index 529f536..c51001b 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -293,9 +293,16 @@ struct pending_client *listener_new_pending_client(struct irc_listener *listener
 
 	if (listener->ssl) {
 #ifdef HAVE_GNUTLS
-		c = ssl_wrap_iochannel(c, SSL_TYPE_SERVER,
+		GIOChannel *sock = c;
+
+		c = ssl_wrap_iochannel(sock, SSL_TYPE_SERVER,
 							 NULL, listener->ssl_credentials);
-		g_assert(c != NULL);
+		if (c == NULL) {
+			listener_log(LOG_WARNING, listener, "Unable to set up SSL for new connection, closing it");
+			g_io_channel_shutdown(sock, FALSE, NULL);
+			g_io_channel_unref(sock);
+			return NULL;
+		}
 #else
 		listener_log(LOG_WARNING, listener, "SSL support not available, not listening for SSL connection");
 #endif
-- 
2.43.0


From ab3be99ab1e8a6cf053f327ddd95e4812d345a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:05 +0000
Subject: [PATCH 23/86] fix: don't read past the arguments of TOPIC

---
 libirc/redirect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index 929ae2f..2d7d1aa 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -606,7 +606,7 @@ static int handle_default(const struct irc_line *l, struct query_stack *stack,
 
 static int handle_topic(const struct irc_line *l, struct query_stack *stack, void *userdata, struct query *q)
 {
-	if (l->args[2] != NULL)
+	if (l->argc > 2)
 		return 0;
 	return handle_default(l,stack,userdata,q);
 }
-- 
2.43.0


From 6a1c9b47be9e91a8e003c5ed0fc0944523e67fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:39 +0000
Subject: [PATCH 24/86] fix: make UNSET of a string setting not crash, and
 admin-user settable

---
 src/admin.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 75a157e..f4dd016 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1120,7 +1120,7 @@ static gboolean motd_file_set(admin_handle h, const char *name)
 {
 	struct global *g = admin_get_global(h);
 
-	if (!g_file_test(name, G_FILE_TEST_EXISTS)) {
+	if (name != NULL && !g_file_test(name, G_FILE_TEST_EXISTS)) {
 		admin_out(h, "%s: file does not exist", name);
 		return FALSE;
 	}
@@ -1194,7 +1194,7 @@ static gboolean report_time_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	if (!strcasecmp(value, "never") || !strcasecmp(value, "false")) {
+	if (value == NULL || !strcasecmp(value, "never") || !strcasecmp(value, "false")) {
 		g->config->report_time = REPORT_TIME_NEVER;
 	} else if (!strcasecmp(value, "always")) {
 		g->config->report_time = REPORT_TIME_ALWAYS;
@@ -1219,7 +1219,7 @@ static gboolean replication_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	if (repl_find_backend(value) == NULL) {
+	if (value != NULL && repl_find_backend(value) == NULL) {
 		admin_out(h, "No such replication backend `%s'", value);
 		return FALSE;
 	}
@@ -1242,7 +1242,7 @@ static gboolean admin_user_set(admin_handle h, const char *value)
 	struct global *g = admin_get_global(h);
 
 	g_free(g->config->admin_user);
-	if (strlen(value) == 0) {
+	if (value != NULL && strlen(value) != 0) {
 		/* FIXME: Check whether value is a somewhat valid IRC nick? */
 		g->config->admin_user = g_strdup(value);
 	} else {
@@ -1551,7 +1551,7 @@ static char *default_nick_get(admin_handle h)
 static gboolean default_nick_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
-	if (strlen(value) == 0) {
+	if (value == NULL || strlen(value) == 0) {
 		admin_out(h, "Nick name can't be empty.");
 		return FALSE;
 	}
@@ -1579,7 +1579,7 @@ static char *default_username_get(admin_handle h)
 static gboolean default_username_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
-	if (strlen(value) == 0) {
+	if (value == NULL || strlen(value) == 0) {
 		admin_out(h, "Username can't be empty.");
 		return FALSE;
 	}
@@ -1608,7 +1608,7 @@ static gboolean default_fullname_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	if (strlen(value) == 0) {
+	if (value == NULL || strlen(value) == 0) {
 		admin_out(h, "Fullname can't be empty");
 		return FALSE;
 	}
-- 
2.43.0


From 8ceecbf9a97339fd9f12069b4cf562fed11080e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:57 +0000
Subject: [PATCH 25/86] fix: don't crash on commands without parameters to the
 admin network

---
 src/admin.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/admin.c b/src/admin.c
index f4dd016..d785969 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -822,6 +822,11 @@ static gboolean admin_to_server (struct irc_network *n, struct irc_client *c, co
 		!base_strcmp(l->args[0], "NOTICE")) {
 		struct admin_handle ah;
 
+		if (l->argc < 3) {
+			virtual_network_recv_response(n, ERR_NOTEXTTOSEND, "No text to send", NULL);
+			return TRUE;
+		}
+
 		if (irccmp(n->external_state->info, l->args[0], n->external_state->me.nick) == 0) {
 			virtual_network_recv_args(n, n->external_state->me.hostmask, l->args[0], l->args[1], NULL);
 			return TRUE;
@@ -892,6 +897,11 @@ static gboolean admin_to_server (struct irc_network *n, struct irc_client *c, co
 		/* FIXME: Do something here ? */
 		return TRUE;
 	} else if (!base_strcmp(l->args[0], "WHO")) {
+		if (l->argc < 2) {
+			virtual_network_recv_response(n, ERR_NEEDMOREPARAMS, l->args[0], "Not enough params", NULL);
+			return TRUE;
+		}
+
 		if (!strcmp(l->args[1], ADMIN_CHANNEL) ||
 			!strcmp(l->args[1], "ctrlproxy")) {
 			virtual_network_recv_response(n, RPL_WHOREPLY, ADMIN_CHANNEL,
@@ -921,11 +931,21 @@ static gboolean admin_to_server (struct irc_network *n, struct irc_client *c, co
 
 		return TRUE;
 	} else if (!base_strcmp(l->args[0], "JOIN")) {
+		if (l->argc < 2) {
+			virtual_network_recv_response(n, ERR_NEEDMOREPARAMS, l->args[0], "Not enough params", NULL);
+			return TRUE;
+		}
+
 		if (strcmp(l->args[1], ADMIN_CHANNEL) != 0) {
 			virtual_network_recv_response(n, ERR_NOSUCHCHANNEL, l->args[1], "No such channel", NULL);
 		}
 		return TRUE;
 	} else if (!base_strcmp(l->args[0], "PART")) {
+		if (l->argc < 2) {
+			virtual_network_recv_response(n, ERR_NEEDMOREPARAMS, l->args[0], "Not enough params", NULL);
+			return TRUE;
+		}
+
 		if (strcmp(l->args[1], ADMIN_CHANNEL) != 0) {
 			virtual_network_recv_response(n, ERR_NOTONCHANNEL, l->args[1], "You're not on that channel", NULL);
 		} else {
-- 
2.43.0


From b2a65f3b8824bda1bd2a4ed1208c98a2b8565e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:15 +0000
Subject: [PATCH 26/86] fix: don't crash when a client can't be set up

---
 src/client.c | 2 ++
 src/main.c   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/client.c b/src/client.c
index b4ba18a..e92375d 100644
--- a/src/client.c
+++ b/src/client.c
@@ -332,6 +332,8 @@ struct irc_client *client_init(struct irc_network *n, struct irc_transport *tran
 	client = irc_client_new(
 		transport,
 		n != NULL?n->name:get_my_hostname(), desc, &default_callbacks);
+	if (client == NULL)
+		return NULL;
 	client->authenticated = FALSE;
 
 	client->network = irc_network_ref(n);
diff --git a/src/main.c b/src/main.c
index 113da0e..a70a458 100644
--- a/src/main.c
+++ b/src/main.c
@@ -404,6 +404,8 @@ int main(int argc, char **argv)
 		}
 
 		client = client_init_iochannel(n, io, "Standard I/O");
+		if (client == NULL)
+			return 1;
 		client->exit_on_close = TRUE;
 	}
 
-- 
2.43.0


From 5258c8bb512dbfd9a7b077271063f42b82b52e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:16 +0000
Subject: [PATCH 27/86] fix: don't crash when the configuration can't be loaded

---
 src/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index a70a458..1b951b4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -311,7 +311,8 @@ int main(int argc, char **argv)
 		g_free(rcfile);
 	} else {
 		my_global = load_global(config_dir, from_sourcedir);
-		my_global->restricted = restricted;
+		if (my_global != NULL)
+			my_global->restricted = restricted;
 	}
 	g_free(config_dir);
 	g_free(tmp);
-- 
2.43.0


From 3438fbca56c2ec164b8ee5afde7db5da50251d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 28/86] fix: don't crash on PASS without a password or with
 allow rules

---
 src/listener.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/listener.c b/src/listener.c
index 0dd2133..2feeade 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -63,7 +63,7 @@ static gboolean listener_check_username_password(struct irc_listener *listener,
 			if (r->password == NULL || r->username == NULL)
 				continue;
 
-			if (strcmp(r->username, username))
+			if (username == NULL || strcmp(r->username, username))
 				continue;
 
 			if (strcmp(r->password, password))
@@ -200,6 +200,14 @@ static gboolean handle_client_line(struct pending_client *pc, const struct irc_l
 		gboolean authenticated = FALSE;
 		char *actual_password;
 
+		if (l->argc < 2) {
+			irc_sendf(pc->connection, listener->iconv, NULL,
+					  ":%s %d %s :Not enough parameters",
+					  get_my_hostname(), ERR_NEEDMOREPARAMS, "PASS");
+			g_io_channel_flush(pc->connection, NULL);
+			return TRUE;
+		}
+
 		if (strchr(l->args[1], ':') != NULL) {
 			char *p = strchr(l->args[1], ':');
 			actual_password = g_strndup(l->args[1], p-l->args[1]);
-- 
2.43.0


From 55906d301047e573060a54fd794d316e7f4b5797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:48 +0000
Subject: [PATCH 29/86] fix: don't crash on a configuration without [global] or
 with an empty allow rule

---
 src/settings.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 86641bd..25d4ecf 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -815,7 +815,7 @@ static void config_load_listeners_socks(struct ctrlproxy_config *cfg)
 		char **parts = g_strsplit(allows[i], ":", 2);
 
 		r->username = parts[0];
-		r->password = parts[1];
+		r->password = (parts[0] != NULL)?parts[1]:NULL;
 
 		g_free(parts);
 		l->allow_rules = g_list_append(l->allow_rules, r);
@@ -1388,7 +1388,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 		}
 	}
 
-	if (!g_file_test(cfg->motd_file, G_FILE_TEST_EXISTS)) {
+	if (cfg->motd_file != NULL && !g_file_test(cfg->motd_file, G_FILE_TEST_EXISTS)) {
 		log_global(LOG_ERROR, "Can't open MOTD file '%s' for reading", cfg->motd_file);
 	}
 
@@ -1440,7 +1440,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	/* Check for unknown parameters */
 	keys = g_key_file_get_keys(kf, "global", NULL, NULL);
-	for (i = 0; keys[i] != NULL; i++) {
+	for (i = 0; keys != NULL && keys[i] != NULL; i++) {
 		if (!config_known_key(keys[i])) {
 			log_global(LOG_WARNING, "Unknown setting `%s' in configuration file", keys[i]);
 		}
@@ -1450,7 +1450,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	size = 0;
 	autoconnect_list = g_key_file_get_string_list(kf, "global", "autoconnect", &size, NULL);
 
-	for (i = 0; i < size; i++) {
+	for (i = 0; autoconnect_list != NULL && i < size; i++) {
 		struct network_config *nc = find_create_network_config(cfg, autoconnect_list[i]);
 
 		g_assert(nc);
-- 
2.43.0


From a1b1deae10dab1cd1c85f712b37406ec26b06cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:49 +0000
Subject: [PATCH 30/86] fix: daemon: skip users that can't be looked up

---
 daemon/user.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daemon/user.c b/daemon/user.c
index 93d6476..8f98867 100644
--- a/daemon/user.c
+++ b/daemon/user.c
@@ -160,6 +160,8 @@ void foreach_daemon_user(struct ctrlproxyd_config *config, struct irc_listener *
 		setpwent();
 		while ((pwent = getpwent()) != NULL) {
 			user = get_daemon_user(config, pwent->pw_name);
+			if (user == NULL)
+				continue;
 			fn(user, config->ctrlproxy_path, listener);
 		}
 		endpwent();
@@ -170,6 +172,8 @@ void foreach_daemon_user(struct ctrlproxyd_config *config, struct irc_listener *
 			return;
 		while ((name = g_dir_read_name(dir)) != NULL) {
 			user = get_daemon_user(config, name);
+			if (user == NULL)
+				continue;
 			fn(user, config->ctrlproxy_path, listener);
 		}
 		g_dir_close(dir);
-- 
2.43.0


From acb683b7b214b464aa3043f08417dbdf1fff726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:50 +0000
Subject: [PATCH 31/86] fix: daemon: don't crash on a short NOTICE from the
 backend

---
 daemon/backend.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daemon/backend.c b/daemon/backend.c
index d1fa6de..4999210 100644
--- a/daemon/backend.c
+++ b/daemon/backend.c
@@ -41,7 +41,8 @@ static gboolean daemon_backend_recv(struct irc_transport *transport, const struc
 		gboolean ok;
 		if (irc_line_respcode(line) == ERR_PASSWDMISMATCH) {
 			ok = FALSE;
-		} else if (!strcmp(line->args[0], "NOTICE") &&
+		} else if (line->argc > 2 &&
+				   !strcmp(line->args[0], "NOTICE") &&
 				   !strcmp(line->args[1], "AUTH") &&
 				   !strcmp(line->args[2], "PASS OK")) {
 			ok = TRUE;
-- 
2.43.0


From e5c11be7a510923f74883260c55f5b77064e9368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:50 +0000
Subject: [PATCH 32/86] fix: daemon: don't read past the arguments of CONNECT

---
 daemon/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/main.c b/daemon/main.c
index 655caf9..7243a53 100644
--- a/daemon/main.c
+++ b/daemon/main.c
@@ -364,7 +364,7 @@ static gboolean handle_client_line(struct pending_client *pc, const struct irc_l
 
 	if (!base_strcmp(l->args[0], "PASS")) {
 		cd->login_details->password = g_strdup(l->args[1]);
-	} else if (!base_strcmp(l->args[0], "CONNECT")) {
+	} else if (!base_strcmp(l->args[0], "CONNECT") && l->argc > 2) {
 		cd->servername = g_strdup(l->args[1]);
 		cd->servicename = g_strdup(l->args[2]);
 	} else if (!base_strcmp(l->args[0], "USER") && l->argc > 4) {
-- 
2.43.0


From da9b0b610198293858cf3beecb8addebeac274fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:50 +0000
Subject: [PATCH 33/86] fix: don't abort when logging MODE while disconnected

---
 src/log_custom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_custom.c b/src/log_custom.c
index 184cf5a..c68473f 100644
--- a/src/log_custom.c
+++ b/src/log_custom.c
@@ -23,7 +23,7 @@ static struct irc_network_info *network_get_info(struct irc_network *network)
 {
 
 	if (network->external_state == NULL || network->external_state->info == NULL) {
-		return NULL;
+		return network->info;
 	} else {
 		return network->external_state->info;
 	}
-- 
2.43.0


From 268e802a187470ab30990010df5c4ac87ad9bd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:09 +0000
Subject: [PATCH 34/86] fix: don't crash when forwarding a line to a
 disconnected network

---
 src/network.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/network.c b/src/network.c
index cdc3d8f..051d8f6 100644
--- a/src/network.c
+++ b/src/network.c
@@ -180,7 +180,8 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 	if (n->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD) {
 		gboolean linestack_store = TRUE;
 		if (irc_line_respcode(l)) {
-			linestack_store &= (!redirect_response(n->queries, n, l));
+			linestack_store &= (n->queries == NULL ||
+								!redirect_response(n->queries, n, l));
 		} else {
 			if (n->clients == NULL) {
 				if (!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
@@ -541,7 +542,8 @@ gboolean network_forward_line(struct irc_network *s, struct irc_client *c,
 		!base_strcmp(l->args[0], "NOTICE"))) {
 		struct irc_line *nl = linedup(l);
 		g_free(nl->origin);
-		nl->origin = g_strdup(s->external_state->me.hostmask);
+		nl->origin = (s->external_state != NULL)?
+					 g_strdup(s->external_state->me.hostmask):NULL;
 		if (s->global->config->report_time == REPORT_TIME_ALWAYS) {
 			line_prefix_time(nl, time(NULL)+s->global->config->report_time_offset);
 		}
@@ -550,6 +552,12 @@ gboolean network_forward_line(struct irc_network *s, struct irc_client *c,
 		free_line(nl);
 	}
 
+	if (s->queries == NULL) {
+		network_log(LOG_WARNING, s, "Dropping '%s' because network is disconnected.",
+					l->args[0]);
+		return FALSE;
+	}
+
 	if (!query_stack_record(s->queries, c, l)) {
 		if (c != NULL) {
 			client_log(LOG_WARNING, c, "Unknown command from client: %s",
-- 
2.43.0


From baa1d7c6d746493957e591e9ba35aaf8cd10d1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:16 +0000
Subject: [PATCH 35/86] fix: don't abort when no backlog storage is available

---
 libirc/connection.c | 2 +-
 src/network.c       | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index 27348a5..912f129 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -53,7 +53,7 @@ static void server_send_login (struct irc_network *s)
 	network_state_set_log_fn(s->external_state, state_log_helper, s);
 	if (s->callbacks->state_set)
 		s->callbacks->state_set(s);
-	g_assert(s->linestack != NULL);
+
 
 	if (login_details->password != NULL) {
 		network_send_args(s, "PASS", login_details->password, NULL);
diff --git a/src/network.c b/src/network.c
index 051d8f6..aa973c6 100644
--- a/src/network.c
+++ b/src/network.c
@@ -406,7 +406,8 @@ static gboolean process_to_server(struct irc_network *s,
 	}
 
 	run_log_filter(s, lc = linedup(l), TO_SERVER); free_line(lc);
-	if (!linestack_insert_line(s->linestack, l, TO_SERVER, s->external_state)) {
+	if (s->linestack != NULL &&
+		!linestack_insert_line(s->linestack, l, TO_SERVER, s->external_state)) {
 		network_log(LOG_ERROR, s, "Error inserting line into linestack.");
 	}
 
-- 
2.43.0


From 9f1886c5fe8ce00d8d9e4904d59c1b18b5ccba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:17 +0000
Subject: [PATCH 36/86] fix: use the channel and key of a keys file entry, and
 accept entries for any network

---
 src/settings.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 25d4ecf..498a754 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -658,11 +658,11 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 	for (gl = channel_keys; gl; gl = gl->next) {
 		struct keyfile_entry *ke = gl->data;
 
-		if (!strcasecmp(ke->network, n->name)) {
-			struct channel_config *cc = config_find_add_channel(n, n->nick);
+		if (ke->network != NULL && !strcasecmp(ke->network, n->name)) {
+			struct channel_config *cc = config_find_add_channel(n, ke->nick);
 
 			g_free(cc->key);
-			cc->key = g_strdup(n->password);
+			cc->key = g_strdup(ke->pass);
 		}
 	}
 
-- 
2.43.0


From 82b0fcb58883c7d6d75683637b11f79f02e92296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:39 +0000
Subject: [PATCH 37/86] fix: daemon: don't call the missing log callback of a
 transport

---
 libirc/transport_ioc.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 76baedd..ace8bb6 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -179,7 +179,8 @@ static gboolean irc_transport_iochannel_send_line(struct irc_transport *transpor
 		transport->callbacks->hangup(transport);
 		return FALSE;
 	case G_IO_STATUS_ERROR:
-		transport->callbacks->log(transport, l, *error);
+		if (transport->callbacks->log != NULL)
+			transport->callbacks->log(transport, l, *error);
 		if (error == &tmp)
 			g_error_free(tmp);
 		return FALSE;
@@ -200,7 +201,8 @@ static gboolean irc_transport_iochannel_send_line(struct irc_transport *transpor
 										transport_send_queue, transport);
 		break;
 	case G_IO_STATUS_ERROR:
-		transport->callbacks->log(transport, l, *error);
+		if (transport->callbacks->log != NULL)
+			transport->callbacks->log(transport, l, *error);
 		if (error == &tmp)
 			g_error_free(tmp);
 		return FALSE;
@@ -364,7 +366,8 @@ static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 			g_queue_push_head(backend_data->pending_lines, l);
 			return TRUE;
 		case G_IO_STATUS_ERROR:
-			transport->callbacks->log(transport, l, error);
+			if (transport->callbacks->log != NULL)
+				transport->callbacks->log(transport, l, error);
 			g_error_free(error);
 			break;
 		case G_IO_STATUS_EOF:
@@ -390,7 +393,8 @@ static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 		case G_IO_STATUS_NORMAL:
 			break;
 		case G_IO_STATUS_ERROR:
-			transport->callbacks->log(transport, l, error);
+			if (transport->callbacks->log != NULL)
+				transport->callbacks->log(transport, l, error);
 			g_error_free(error);
 			break;
 		}
-- 
2.43.0


From e148860c199d8a08fd38c32e82ed06dc1cda3f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:47 +0000
Subject: [PATCH 38/86] fix: accept a CHANTYPES token without a value

---
 libirc/isupport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/isupport.c b/libirc/isupport.c
index 8ec02c6..61217b8 100644
--- a/libirc/isupport.c
+++ b/libirc/isupport.c
@@ -497,7 +497,7 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 			info->silence = TRUE;
 	} else if (!base_strcmp(key, "CHANTYPES")) {
 		g_free(info->chantypes);
-		info->chantypes = g_strdup(val);
+		info->chantypes = g_strdup(value);
 	} else if (!base_strcmp(key, "CHANMODES")) {
 		g_strfreev(info->chanmodes);
 		info->chanmodes_a = info->chanmodes_b =
-- 
2.43.0


From 8e6eb189768a38ce166ecf4c9d9acfe6d5a8a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:55 +0000
Subject: [PATCH 39/86] fix: don't abort when a SSL listener has no credentials

---
 src/admin.c    |  4 ++++
 src/listener.c | 15 ++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index d785969..e64478a 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1073,6 +1073,10 @@ static void cmd_start_listener(admin_handle h, const char * const *args, void *u
 	cfg->password = g_strdup(args[2]);
 
 	l = listener_init(admin_get_global(h), cfg);
+	if (l == NULL) {
+		admin_out(h, "Unable to create listener");
+		return;
+	}
 	l->global = admin_get_global(h);
 
 	listener_start_tcp(l, l->config->address, l->config->port);
diff --git a/src/listener.c b/src/listener.c
index 2feeade..ac3f773 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -312,12 +312,18 @@ static struct irc_listener_ops default_listener_ops = {
 
 struct irc_listener *listener_init(struct global *global, struct listener_config *cfg)
 {
-	struct irc_listener *l = g_new0(struct irc_listener, 1);
+	struct irc_listener *l;
+
+	if (cfg->ssl && cfg->ssl_credentials == NULL) {
+		log_global(LOG_ERROR, "No SSL credentials for listener on port %s, not starting it", cfg->port);
+		return NULL;
+	}
+
+	l = g_new0(struct irc_listener, 1);
 
 	l->config = cfg;
 	l->ssl = cfg->ssl;
 	l->ssl_credentials = cfg->ssl_credentials;
-	g_assert(!l->ssl || l->ssl_credentials != NULL);
 	l->global = global;
 	l->ops = &default_listener_ops;
 	l->iconv = (GIConv)-1;
@@ -354,7 +360,8 @@ static void auto_add_listener(struct irc_network *n, void *private_data)
 	cfg->network = g_strdup(nc->name);
 	cfg->port = g_strdup_printf("%d", next_autoport(n->global));
 	l = listener_init(n->global, cfg);
-	listener_start_tcp(l, NULL, cfg->port);
+	if (l != NULL)
+		listener_start_tcp(l, NULL, cfg->port);
 }
 
 gboolean init_listeners(struct global *global)
@@ -371,6 +378,8 @@ gboolean init_listeners(struct global *global)
 
 		if (l != NULL) {
 			ret &= listener_start_tcp(l, cfg->address, cfg->port);
+		} else {
+			ret = FALSE;
 		}
 	}
 	return ret;
-- 
2.43.0


From 80e2280661b2ddb0f1c8dae11817230283b22666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:55 +0000
Subject: [PATCH 40/86] fix: look up help topics when the help file was
 malformed

---
 src/help.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/help.c b/src/help.c
index 2b912c6..2a8cd93 100644
--- a/src/help.c
+++ b/src/help.c
@@ -102,7 +102,7 @@ help_t *help_load_file( const char *helpfile )
 
 const char *help_get(help_t *h, const char *string)
 {
-	if (h == NULL)
+	if (h == NULL || h->entries == NULL)
 		return NULL;
 	return g_hash_table_lookup(h->entries, string);
 }
-- 
2.43.0


From f79087a190bd9bf2bcf140e09598bb9d6513988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:16 +0000
Subject: [PATCH 41/86] fix: compile as GNU C 90 rather than strict ANSI C

-ansi makes a // comment in any source file a build error, while the code
relies on GNU extensions (_GNU_SOURCE, designated initializers) anyway.
---
 configure.ac | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configure.ac b/configure.ac
index 70e6993..1116e4b 100644
--- a/configure.ac
+++ b/configure.ac
@@ -26,7 +26,7 @@ AC_PROG_INSTALL
 AC_PATH_PROG(IRCDTORTURE,ircdtorture)
 
 if test "$GCC" = "yes"; then
-	CFLAGS="$CFLAGS -ansi -Wall"
+	CFLAGS="$CFLAGS -std=gnu90 -Wall"
 	DYNAMIC="-rdynamic"
 fi
 AC_SUBST(GCC)
-- 
2.43.0


From 06192a94789246a2342a354fa8d5239e42c510b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:18 +0000
Subject: [PATCH 42/86] fix: don't free the configuration directory name twice

---
 src/main.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 1b951b4..dc95764 100644
--- a/src/main.c
+++ b/src/main.c
@@ -357,13 +357,11 @@ int main(int argc, char **argv)
 #endif
 		if (daemon(1, 0) < 0) {
 			log_global(LOG_ERROR, "Unable to daemonize\n");
-			g_free(config_dir);
 			return -1;
 		}
 		isdaemon = 1;
 #else
 		log_global(LOG_ERROR, "Daemon mode not compiled in");
-		g_free(config_dir);
 		return -1;
 #endif
 	}
-- 
2.43.0


From 4e195aef1f52cc2dfdec6450d6de1f413e23394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:48 +0000
Subject: [PATCH 43/86] fix: keep the client alive while a reply is redirected
 to it

---
 libirc/python/irc.c | 2 +-
 libirc/redirect.c   | 7 +++++++
 src/redirect.c      | 1 +
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/libirc/python/irc.c b/libirc/python/irc.c
index 98da79e..b800f84 100644
--- a/libirc/python/irc.c
+++ b/libirc/python/irc.c
@@ -1029,7 +1029,7 @@ static PyObject *py_query_stack_redirect(PyQueryStackObject *self, PyObject *arg
     if (ret == NULL) {
         Py_RETURN_NONE;
     } else {
-        Py_INCREF(ret);
+        /* Comes with a reference of its own */
         return ret;
     }
 }
diff --git a/libirc/redirect.c b/libirc/redirect.c
index 2d7d1aa..f734fd2 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -522,6 +522,11 @@ static void query_stack_free_entry(struct query_stack *stack, struct query_stack
 	g_free(s);
 }
 
+/**
+ * Find the user data of the query that a line is a response to.
+ *
+ * @return The user data, with a reference for the caller, or NULL.
+ */
 void *query_stack_match_response(struct query_stack *stack, const struct irc_line *l)
 {
 	int n;
@@ -540,6 +545,8 @@ void *query_stack_match_response(struct query_stack *stack, const struct irc_lin
 			is_reply(s->query->end_replies, n)) {
 			
 			ret = s->userdata;
+			/* The entry may hold the last reference */
+			stack->ref_userdata(ret);
 
 			/* Not a valid in-between reply ? Remove from stack */
 			if (!is_reply(s->query->replies, n)) {
diff --git a/src/redirect.c b/src/redirect.c
index 7a05cb4..c91512d 100644
--- a/src/redirect.c
+++ b/src/redirect.c
@@ -91,6 +91,7 @@ gboolean redirect_response(struct query_stack *stack,
 	c = (struct irc_client *)query_stack_match_response(stack, l);
 	if (c != NULL) {
 		client_send_line(c, l, NULL);
+		client_unref(c);
 		return TRUE;
 	}
 
-- 
2.43.0


From 203d969b96bd1b6a11de837e68ba9573b8c23189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 44/86] fix: don't read on from a backend connection that was
 closed because of a wrong password

---
 daemon/backend.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/backend.c b/daemon/backend.c
index 4999210..a2daf85 100644
--- a/daemon/backend.c
+++ b/daemon/backend.c
@@ -58,7 +58,7 @@ static gboolean daemon_backend_recv(struct irc_transport *transport, const struc
 			backend->pass_check_cb = NULL;
 		}
 		backend->authenticated = ok;
-		return TRUE;
+		return ok; /* the callback kills us when the password was wrong */
 	} else {
 		return backend->callbacks->recv(backend, line);
 	}
-- 
2.43.0


From 3c306dd4551254f2b27df562bb9bba3e2f27a2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:37 +0000
Subject: [PATCH 45/86] fix: make room for all 256 mode characters

---
 libirc/python/state.c | 4 ++--
 libirc/state.c        | 4 ++--
 libirc/state.h        | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libirc/python/state.c b/libirc/python/state.c
index ce55627..82b3abc 100644
--- a/libirc/python/state.c
+++ b/libirc/python/state.c
@@ -253,7 +253,7 @@ static PyObject *py_channel_mode_dict_get(PyChannelModeDictObject *self, PyObjec
     }
 
     mode = PyString_AsString(py_name)[0];
-    if (mode > MAXMODES || mode < 0) {
+    if (mode >= MAXMODES || mode < 0) {
         PyErr_SetNone(PyExc_KeyError);
         return NULL;
     }
@@ -276,7 +276,7 @@ static int py_channel_mode_dict_set(PyChannelModeDictObject *self, PyObject *py_
     }
 
     mode = PyString_AsString(py_name)[0];
-    if (mode > MAXMODES || mode < 0) {
+    if (mode >= MAXMODES || mode < 0) {
         PyErr_SetNone(PyExc_KeyError);
         return -1;
     }
diff --git a/libirc/state.c b/libirc/state.c
index 9aeef0b..dc2aac1 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1349,8 +1349,8 @@ gboolean string2mode(const char *modes, irc_modes_t ar)
 
 char *mode2string(irc_modes_t modes)
 {
-	char ret[256];
-	unsigned char i;
+	char ret[MAXMODES + 1];
+	int i;
 	int pos = 0;
 	ret[0] = '\0';
 	for(i = 0; i < MAXMODES; i++) {
diff --git a/libirc/state.h b/libirc/state.h
index 496fd34..6196304 100644
--- a/libirc/state.h
+++ b/libirc/state.h
@@ -23,7 +23,7 @@
 #include "isupport.h"
 #include "log.h"
 
-#define MAXMODES 255
+#define MAXMODES 256
 typedef gboolean irc_modes_t[MAXMODES];
 
 /**
-- 
2.43.0


From 83203f5b58ffb01447fef7075a21742cf86649b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:38 +0000
Subject: [PATCH 46/86] fix: treat SOCKS lengths as unsigned

---
 libirc/listener.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/libirc/listener.c b/libirc/listener.c
index c51001b..a80f733 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -572,8 +572,8 @@ static gboolean pass_handle_data(struct pending_client *cl)
 	 	return listener_socks_error(cl, REP_GENERAL_FAILURE);
 	}
 
-	status = g_io_channel_read_chars(cl->connection, uname, header[1], &read,
-									 NULL);
+	status = g_io_channel_read_chars(cl->connection, uname, (guint8)header[1],
+									 &read, NULL);
 	if (status != G_IO_STATUS_NORMAL) {
 		return FALSE;
 	}
@@ -585,7 +585,8 @@ static gboolean pass_handle_data(struct pending_client *cl)
 		return FALSE;
 	}
 
-	status = g_io_channel_read_chars(cl->connection, pass, header[0], &read, NULL);
+	status = g_io_channel_read_chars(cl->connection, pass, (guint8)header[0],
+									 &read, NULL);
 	if (status != G_IO_STATUS_NORMAL) {
 		return FALSE;
 	}
@@ -817,12 +818,12 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 		/* None by default */
 		cl->socks.method = NULL;
 
-		status = g_io_channel_read_chars(ioc, methods, header[0], &read, NULL);
+		status = g_io_channel_read_chars(ioc, methods, (guint8)header[0], &read, NULL);
 		if (status != G_IO_STATUS_NORMAL) {
 			return FALSE;
 		}
 
-		for (i = 0; i < header[0]; i++) {
+		for (i = 0; i < (guint8)header[0]; i++) {
 			int j;
 			for (j = 0; socks_methods[j].id != -1; j++)
 			{
@@ -896,10 +897,17 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 					char hostname[0x100];
 					guint16 port;
 					status = g_io_channel_read_chars(ioc, header, 1, &read, NULL);
-					status = g_io_channel_read_chars(ioc, hostname, header[0], &read, NULL);
+					if (status != G_IO_STATUS_NORMAL)
+						return FALSE;
+
+					status = g_io_channel_read_chars(ioc, hostname, (guint8)header[0], &read, NULL);
+					if (status != G_IO_STATUS_NORMAL)
+						return FALSE;
 					hostname[(guint8)header[0]] = '\0';
 
 					status = g_io_channel_read_chars(ioc, header, 2, &read, NULL);
+					if (status != G_IO_STATUS_NORMAL)
+						return FALSE;
 					port = ntohs(*(guint16 *)header);
 
 					if (cl->listener->ops->socks_connect_fqdn == NULL)
-- 
2.43.0


From c536a5e376c9bc86da7e3eb4f0109a6f522d507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:39 +0000
Subject: [PATCH 47/86] fix: terminate the address and port of a listener

---
 libirc/listener.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libirc/listener.c b/libirc/listener.c
index a80f733..ee46154 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -367,11 +367,11 @@ void listener_add_iochannel(struct irc_listener *l, GIOChannel *ioc,
 	if (address == NULL)
 		strcpy(lio->address, "");
 	else
-		strncpy(lio->address, address, NI_MAXHOST);
+		g_strlcpy(lio->address, address, NI_MAXHOST);
 	if (port == NULL)
-		strcpy(lio->address, "");
+		strcpy(lio->port, "");
 	else
-		strncpy(lio->port, port, NI_MAXSERV);
+		g_strlcpy(lio->port, port, NI_MAXSERV);
 
 	if (address != NULL)
 		listener_log(LOG_INFO, l, "Listening on %s:%s",
-- 
2.43.0


From f14080a6959886f3ca3ef630f5b23f2efffd2be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:02 +0000
Subject: [PATCH 48/86] fix: don't act on data that was not read from a new
 client

---
 libirc/listener.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libirc/listener.c b/libirc/listener.c
index ee46154..0dd9f0a 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -166,7 +166,10 @@ static gboolean handle_client_detect(GIOChannel *ioc, struct pending_client *pc)
 
 	status = g_io_channel_read_chars(ioc, header, 1, &read, &error);
 
-	if (status != G_IO_STATUS_NORMAL && status != G_IO_STATUS_AGAIN) {
+	if (status == G_IO_STATUS_AGAIN)
+		return TRUE;
+
+	if (status != G_IO_STATUS_NORMAL) {
 		if (error != NULL)
 			g_error_free(error);
 		return FALSE;
@@ -192,8 +195,9 @@ static gboolean handle_client_detect(GIOChannel *ioc, struct pending_client *pc)
 		status = g_io_channel_read_line(ioc, &raw, &in_len, NULL, &error);
 		if (status != G_IO_STATUS_NORMAL) {
 			g_free(raw);
-			g_error_free(error);
-			return status;
+			if (error != NULL)
+				g_error_free(error);
+			return (status == G_IO_STATUS_AGAIN);
 		}
 
 		complete = g_malloc(in_len+2);
-- 
2.43.0


From 174ca1d53e54976205627231e2717c1e5178ad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:03 +0000
Subject: [PATCH 49/86] fix: daemon: copy long host names of SOCKS requests

---
 daemon/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/main.c b/daemon/main.c
index 7243a53..5537dea 100644
--- a/daemon/main.c
+++ b/daemon/main.c
@@ -335,7 +335,7 @@ static gboolean daemon_socks_connect_fqdn (struct pending_client *cl, const char
 	g_assert(strlen(hostname) < 0x100);
 
 	data[0] = strlen(hostname);
-	strncpy(data+1, hostname, data[0]);
+	memcpy(data+1, hostname, strlen(hostname) + 1);
 
 	listener_socks_reply(cl, REP_OK, ATYP_FQDN, strlen(hostname)+2, data, port);
 	return FALSE;
-- 
2.43.0


From a26bb3c54ee20065d4a72b5f1c2b55f40b718523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:04 +0000
Subject: [PATCH 50/86] fix: refuse socket paths that are too long

---
 daemon/backend.c | 9 ++++++---
 src/admin-cmd.c  | 7 ++++++-
 src/admin.c      | 6 +++++-
 src/listener.c   | 7 ++++++-
 4 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/daemon/backend.c b/daemon/backend.c
index a2daf85..9ce0f3a 100644
--- a/daemon/backend.c
+++ b/daemon/backend.c
@@ -95,10 +95,13 @@ struct daemon_backend *daemon_backend_open(const char *socketpath,
 	struct sockaddr_un un;
 	GIOChannel *ch;
 
-	sock = socket(PF_UNIX, SOCK_STREAM, 0);
-
 	un.sun_family = AF_UNIX;
-	strncpy(un.sun_path, socketpath, sizeof(un.sun_path));
+	if (g_strlcpy(un.sun_path, socketpath, sizeof(un.sun_path)) >= sizeof(un.sun_path)) {
+		listener_log(LOG_INFO, listener, "path of socket too long: %s", socketpath);
+		return NULL;
+	}
+
+	sock = socket(PF_UNIX, SOCK_STREAM, 0);
 
 	if (connect(sock, (struct sockaddr *)&un, sizeof(un)) < 0) {
 		listener_log(LOG_INFO, listener, "unable to connect to %s: %s", un.sun_path, strerror(errno));
diff --git a/src/admin-cmd.c b/src/admin-cmd.c
index 85e6de3..76aa449 100644
--- a/src/admin-cmd.c
+++ b/src/admin-cmd.c
@@ -35,7 +35,12 @@ gboolean admin_socket_prompt(const char *config_dir, gboolean python)
 	GError *error = NULL;
 
 	un.sun_family = AF_UNIX;
-	strncpy(un.sun_path, admin_dir, sizeof(un.sun_path));
+	if (g_strlcpy(un.sun_path, admin_dir, sizeof(un.sun_path)) >= sizeof(un.sun_path)) {
+		fprintf(stderr, "path of socket too long: %s\n", admin_dir);
+		g_free(admin_dir);
+		close(sock);
+		return FALSE;
+	}
 
 	if (connect(sock, (struct sockaddr *)&un, sizeof(un)) < 0) {
 		fprintf(stderr, "unable to connect to %s: %s\n", un.sun_path, strerror(errno));
diff --git a/src/admin.c b/src/admin.c
index e64478a..b2b2921 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1877,7 +1877,11 @@ gboolean start_admin_socket(struct global *global)
 	}
 
 	un.sun_family = AF_UNIX;
-	strncpy(un.sun_path, global->config->admin_socket, sizeof(un.sun_path));
+	if (g_strlcpy(un.sun_path, global->config->admin_socket, sizeof(un.sun_path)) >= sizeof(un.sun_path)) {
+		log_global(LOG_ERROR, "path of unix socket too long: %s", global->config->admin_socket);
+		close(sock);
+		return FALSE;
+	}
 	unlink(un.sun_path);
 
 	if (bind(sock, (struct sockaddr *)&un, sizeof(un)) < 0) {
diff --git a/src/listener.c b/src/listener.c
index ac3f773..6c253c2 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -411,7 +411,12 @@ gboolean start_unix_domain_socket_listener(struct global *global)
 	}
 
 	un.sun_family = AF_UNIX;
-	strncpy(un.sun_path, global->config->network_socket, sizeof(un.sun_path));
+	if (g_strlcpy(un.sun_path, global->config->network_socket, sizeof(un.sun_path)) >= sizeof(un.sun_path)) {
+		log_global(LOG_ERROR, "path of unix socket too long: %s", global->config->network_socket);
+		close(sock);
+		g_free(l);
+		return FALSE;
+	}
 	unlink(un.sun_path);
 
 	if (bind(sock, (struct sockaddr *)&un, sizeof(un)) < 0) {
-- 
2.43.0


From 6b0b051a3db7dc2a7ee6b8090617dee142ebae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:05 +0000
Subject: [PATCH 51/86] fix: don't overrun the buffer for long mode changes in
 logs

---
 src/log_subst.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/log_subst.c b/src/log_subst.c
index 154b65e..fbaa732 100644
--- a/src/log_subst.c
+++ b/src/log_subst.c
@@ -149,15 +149,15 @@ static char *get_identifier(struct subst_context *subst_ctx, const struct irc_li
 
 static char *get_modechanges(struct subst_context *subst_ctx, const struct irc_line *line, gboolean case_sensitive)
 {
-	char buf[512] = "";
+	GString *buf = g_string_new("");
 	int i;
 
 	for (i = 3 ; i < line->argc && line->args[i] != NULL; i++) {
-		if (i > 3) strncat(buf, " ", sizeof(buf)-1);
-		strncat(buf, line->args[i], sizeof(buf)-1);
+		if (i > 3) g_string_append_c(buf, ' ');
+		g_string_append(buf, line->args[i]);
 	}
 
-	return g_strdup(buf);
+	return g_string_free(buf, FALSE);
 }
 
 static struct log_mapping mappings[] = {
-- 
2.43.0


From e28997010ac1504ff125a262c7a38b2e75eb8ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:06 +0000
Subject: [PATCH 52/86] fix: don't read before an empty port

---
 src/settings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/settings.c b/src/settings.c
index 498a754..34e1fed 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1570,7 +1570,7 @@ gboolean create_configuration(const char *config_dir, gboolean from_source)
 	if (!fgets(port, sizeof(port), stdin))
 		snprintf(port, sizeof(port), "%d", DEFAULT_ADMIN_PORT);
 
-	if (port[strlen(port)-1] == '\n')
+	if (strlen(port) > 0 && port[strlen(port)-1] == '\n')
 		port[strlen(port)-1] = '\0';
 
 	if (strlen(port) == 0)
-- 
2.43.0


From 16fbe7f4bb065d68416edf60d5df9be320656eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:48 +0000
Subject: [PATCH 53/86] fix: passwords of allow rules only mean that a password
 is required

---
 src/listener.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/listener.c b/src/listener.c
index 6c253c2..5c6418c 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -54,13 +54,19 @@ static gboolean listener_check_username_password(struct irc_listener *listener,
 												 const char *username, const char *password)
 {
 	GList *gl;
+	gboolean restricted = FALSE;
 
 	if (listener->config != NULL) {
 		for (gl = listener->config->allow_rules; gl; gl = gl->next)
 		{
 			struct allow_rule *r = gl->data;
 
-			if (r->password == NULL || r->username == NULL)
+			if (r->password == NULL)
+				continue;
+
+			restricted = TRUE;
+
+			if (r->username == NULL)
 				continue;
 
 			if (username == NULL || strcmp(r->username, username))
@@ -81,6 +87,10 @@ static gboolean listener_check_username_password(struct irc_listener *listener,
 		return (strcmp(listener->global->config->password, password) == 0);
 	}
 
+	/* The only passwords set are those of specific users */
+	if (restricted)
+		return FALSE;
+
 	listener_log(LOG_WARNING, listener, "No password set, allowing client _without_ authentication!");
 	return TRUE;
 }
-- 
2.43.0


From c33b7d67685f9980d6a9c25d08ae13d987004776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:49 +0000
Subject: [PATCH 54/86] fix: daemon: give up the groups of root too when
 starting a user's ctrlproxy, and don't fail for users without account

---
 daemon/user.c | 16 ++++++++++++++++
 daemon/user.h |  1 +
 2 files changed, 17 insertions(+)

diff --git a/daemon/user.c b/daemon/user.c
index 8f98867..a6819be 100644
--- a/daemon/user.c
+++ b/daemon/user.c
@@ -23,6 +23,7 @@
 #include "internals.h"
 #include "daemon/user.h"
 #include <pwd.h>
+#include <grp.h>
 #include "daemon/daemon.h"
 
 gboolean daemon_user_exists(struct daemon_user *user)
@@ -70,6 +71,7 @@ struct daemon_user *get_daemon_user(struct ctrlproxyd_config *config, const char
 
 		user->configdir = g_build_filename(pwd->pw_dir, ".ctrlproxy", NULL);
 		user->uid = pwd->pw_uid;
+		user->gid = pwd->pw_gid;
 	}
 
 	user->socketpath = g_build_filename(user->configdir, "socket", NULL);
@@ -85,6 +87,20 @@ struct spawn_data {
 static void user_setup(gpointer user_data)
 {
 	struct spawn_data *data = user_data;
+
+	/* Not a system user, there is nothing to change to */
+	if (data->user->uid == (uid_t)-1)
+		return;
+
+	if (geteuid() == 0) {
+		if (setgid(data->user->gid) < 0 ||
+			initgroups(data->user->username, data->user->gid) < 0) {
+			listener_log(LOG_WARNING, data->listener, "Unable to change groups to those of %s: %s",
+						 data->user->username, strerror(errno));
+			exit(1);
+		}
+	}
+
 	if (setuid(data->user->uid) < 0) {
 		listener_log(LOG_WARNING, data->listener, "Unable to change effective user id to %s (%d): %s",
 					 data->user->username, data->user->uid,
diff --git a/daemon/user.h b/daemon/user.h
index 8e8fd12..6977273 100644
--- a/daemon/user.h
+++ b/daemon/user.h
@@ -30,6 +30,7 @@ struct daemon_user {
 	 gint last_status;
 	 gint child_watch;
 	 uid_t uid; /* -1 if not a system user */
+	 gid_t gid;
 	 GPid pid;
 	 struct irc_listener *listener;
 };
-- 
2.43.0


From 185b04540654cc089b917e05b219742dce63feb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:39 +0000
Subject: [PATCH 55/86] fix: don't log passwords that can't be stored

---
 src/keyfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keyfile.c b/src/keyfile.c
index 22a67e3..66f68e2 100644
--- a/src/keyfile.c
+++ b/src/keyfile.c
@@ -109,7 +109,7 @@ gboolean keyfile_write_file(GList *nicks, const char *header,
 
 		line = g_strdup_printf("%s\t%s\t%s\n", n->nick, n->pass, n->network?n->network:"*");
 		if (write(fd, line, strlen(line)) < 0) {
-			log_global(LOG_WARNING, "error writing line `%s': %s", line, strerror(errno));
+			log_global(LOG_WARNING, "error writing entry for `%s': %s", n->nick, strerror(errno));
 			g_free(line);
 			close(fd);
 			return FALSE;
-- 
2.43.0


From 5736f5f8b754efa89d9f40ca1884f0f284296c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:50 +0000
Subject: [PATCH 56/86] fix: answer queries from the cache only when the answer
 is completely known

---
 libirc/state.c |  5 +++--
 libirc/state.h |  1 +
 src/cache.c    | 29 ++++++++++++++++++++++++++---
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index dc2aac1..a082bc0 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -708,9 +708,10 @@ static void handle_namreply(struct irc_network_state *s, const struct irc_line *
 static void handle_end_names(struct irc_network_state *s, const struct irc_line *l)
 {
 	struct irc_channel_state *c = find_channel(s, l->args[2]);
-	if (c != NULL)
+	if (c != NULL) {
 		c->namreply_started = FALSE;
-	else
+		c->names_received = TRUE;
+	} else
 		network_state_log(LOG_WARNING, s,
 				  "Can't end /NAMES command for %s: channel not found",
 				  l->args[2]);
diff --git a/libirc/state.h b/libirc/state.h
index 6196304..faf9756 100644
--- a/libirc/state.h
+++ b/libirc/state.h
@@ -97,6 +97,7 @@ struct irc_channel_state {
 	irc_modes_t modes;
 	time_t creation_time;
 	gboolean namreply_started;
+	gboolean names_received;
 	gboolean banlist_started;
 	gboolean invitelist_started;
 	gboolean exceptlist_started;
diff --git a/src/cache.c b/src/cache.c
index 5c71f1c..7159a58 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -54,13 +54,23 @@ static gboolean client_try_cache_mode(struct irc_client *c,
 			return FALSE;
 		}
 
+		/* Only the ban list, if all of it is known */
+		if (l->args[2][0] == '\0') {
+			return FALSE;
+		}
+
 		for (i = 0; (m = l->args[2][i]); i++) {
-			switch (m) {
-			case 'b': client_send_banlist(c, ch); break;
-			default: return FALSE;
+			if (m != 'b') {
+				return FALSE;
 			}
 		}
 
+		if (!channel_mode_nicklist_present(ch, 'b') || ch->banlist_started) {
+			return FALSE;
+		}
+
+		client_send_banlist(c, ch);
+
 		return TRUE;
 	/* Queries in the form MODE #channel */
 	} else if (l->argc == 2) {
@@ -107,6 +117,11 @@ static gboolean client_try_cache_topic(struct irc_client *c,
 		return FALSE;
 	}
 
+	/* The topic is sent before the names */
+	if (!ch->names_received) {
+		return FALSE;
+	}
+
 	client_send_topic(c, ch, TRUE);
 
 	return TRUE;
@@ -164,6 +179,10 @@ static gboolean client_try_cache_who(struct irc_client *c, struct irc_network_st
 		return FALSE;
 	}
 
+	if (!ch->names_received || ch->namreply_started) {
+		return FALSE;
+	}
+
 	now = time(NULL);
 
 	/* Check that the cache data hasn't expired yet */
@@ -226,6 +245,10 @@ static gboolean client_try_cache_names(struct irc_client *c,
 		return FALSE;
 	}
 
+	if (!ch->names_received || ch->namreply_started) {
+		return FALSE;
+	}
+
 	client_send_nameslist(c, ch);
 
 	return TRUE;
-- 
2.43.0


From 8e2a37405624fdaeda11e4c88e899bf235d7baa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:10 +0000
Subject: [PATCH 57/86] fix: keep the parameters of channel modes and give them
 when answering MODE from the cache

---
 libirc/client.c | 52 ++++++++++++++++++++++++++-----------------------
 libirc/state.c  | 18 ++++++++++++++++-
 2 files changed, 45 insertions(+), 25 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 78d2c86..757488e 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -828,33 +828,37 @@ gboolean client_send_banlist(struct irc_client *client, struct irc_channel_state
 gboolean client_send_channel_mode(struct irc_client *c, struct irc_channel_state *ch)
 {
 	char *mode;
-	mode = mode2string(ch->modes);
 	gboolean ret;
+	struct irc_line *l;
+	int i, j = 0;
 
-	if (mode != NULL) {
-		struct irc_line *l;
-		int i, j = 0;
-		l = g_new0(struct irc_line, 1);
-		l->args = g_new0(char *, 260);
-		l->origin = g_strdup(c->default_origin);
-		l->args[0] = g_strdup_printf("%03d", RPL_CHANNELMODEIS);
-		l->args[1] = g_strdup(client_get_default_target(c));
-		l->args[2] = g_strdup(ch->name);
-		l->args[3] = mode;
-		for (i = 0; mode[i]; i++) {
-			if (network_chanmode_type(mode[i], c->state->info) == CHANMODE_OPT_SETTING &&
-				channel_mode_option(ch, mode[i])) {
-				l->args[4+j] = g_strdup(channel_mode_option(ch, mode[i]));
-				j++;
-			}
-			l->args[4+j] = NULL;
-		}
-		l->argc = 4+j;
-		ret = client_send_line(c, l, NULL);
-		free_line(l);
-		if (!ret) {
-			return FALSE;
+	mode = mode2string(ch->modes);
+	if (mode == NULL) {
+		mode = g_strdup("+");
+	}
+
+	l = g_new0(struct irc_line, 1);
+	l->args = g_new0(char *, 260);
+	l->origin = g_strdup(c->default_origin);
+	l->args[0] = g_strdup_printf("%03d", RPL_CHANNELMODEIS);
+	l->args[1] = g_strdup(client_get_default_target(c));
+	l->args[2] = g_strdup(ch->name);
+	l->args[3] = mode;
+	for (i = 0; mode[i]; i++) {
+		enum chanmode_type cmt = network_chanmode_type(mode[i], c->state->info);
+
+		if ((cmt == CHANMODE_SETTING || cmt == CHANMODE_OPT_SETTING) &&
+			channel_mode_option(ch, mode[i])) {
+			l->args[4+j] = g_strdup(channel_mode_option(ch, mode[i]));
+			j++;
 		}
+		l->args[4+j] = NULL;
+	}
+	l->argc = 4+j;
+	ret = client_send_line(c, l, NULL);
+	free_line(l);
+	if (!ret) {
+		return FALSE;
 	}
 
 	if (ch->creation_time > 0) {
diff --git a/libirc/state.c b/libirc/state.c
index a082bc0..39b5727 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -948,13 +948,15 @@ static int channel_state_change_mode(struct irc_network_state *s, struct network
 
 			g_free(channel_mode_option(c, mode));
 			channel_mode_option(c, mode) = g_strdup(opt_arg);
+			modes_set_mode(c->modes, mode);
 
 			return 1;
 		} else {
 			g_free(channel_mode_option(c, mode));
 			channel_mode_option(c, mode) = NULL;
+			modes_unset_mode(c->modes, mode);
 
-			return 0;
+			return (cmt == CHANMODE_SETTING)?1:0;
 		}
 	} else if (is_prefix_mode(info, mode)) {
 		struct channel_nick *n;
@@ -1118,6 +1120,8 @@ static void handle_umodeis(struct irc_network_state *s, const struct irc_line *l
 static void handle_324(struct irc_network_state *s, const struct irc_line *l)
 {
 	struct irc_channel_state *ch = find_channel(s, l->args[2]);
+	const char *m;
+	int arg = 4;
 
 	if (ch == NULL) {
 		network_state_log(LOG_WARNING, s,
@@ -1130,6 +1134,18 @@ static void handle_324(struct irc_network_state *s, const struct irc_line *l)
 						  "Invalid MODE change %s for channel %s", l->args[3], l->args[2]);
 	}
 
+	for (m = l->args[3]; *m; m++) {
+		enum chanmode_type cmt = network_chanmode_type(*m, s->info);
+
+		if (cmt != CHANMODE_SETTING && cmt != CHANMODE_OPT_SETTING)
+			continue;
+
+		g_free(channel_mode_option(ch, *m));
+		channel_mode_option(ch, *m) = g_strdup(l->args[arg]);
+		if (l->args[arg] != NULL)
+			arg++;
+	}
+
 	ch->mode_received = TRUE;
 }
 
-- 
2.43.0


From 265983f01116cbff166a53e4e06c1086b2c61090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:48 +0000
Subject: [PATCH 58/86] fix: create the configuration and the TLS key readable
 by their owner only, and notice when they can't be written

---
 src/ctrlproxy.h |  1 +
 src/settings.c  | 16 ++++------------
 src/tlscert.c   |  7 ++++++-
 src/util.c      | 41 +++++++++++++++++++++++++++++++++++++++++
 4 files changed, 52 insertions(+), 13 deletions(-)

diff --git a/src/ctrlproxy.h b/src/ctrlproxy.h
index 5201405..a07abe3 100644
--- a/src/ctrlproxy.h
+++ b/src/ctrlproxy.h
@@ -128,6 +128,7 @@ int rep_g_mkdir_with_parents (const gchar *pathname, int mode);
 int daemon(int nochdir, int noclose);
 #endif
 gboolean write_pidfile(const char *filename);
+gboolean write_private_file(const char *path, const char *data, gsize length, GError **error);
 pid_t read_pidfile(const char *filename);
 
 #endif /* __CTRLPROXY_H__ */
diff --git a/src/settings.c b/src/settings.c
index 34e1fed..132b5c1 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -124,26 +124,18 @@ void config_register_known_key(char *name)
 
 gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *file, GError **error)
 {
-	gsize length, nr;
+	gsize length;
 	char *data = g_key_file_to_data(kf, &length, error);
-	GIOChannel *gio;
+	gboolean ret;
 
 	if (!data)
 		return FALSE;
 
-	gio = g_io_channel_new_file(file, "w+", error);
-	if (!gio) {
-		g_free(data);
-		return FALSE;
-	}
-
-	g_io_channel_write_chars(gio, data, length, &nr, error);
+	ret = write_private_file(file, data, length, error);
 
 	g_free(data);
 
-	g_io_channel_unref(gio);
-
-	return TRUE;
+	return ret;
 }
 
 static void config_save_tcp_servers(struct network_config *n, GKeyFile *kf, const char *groupname)
diff --git a/src/tlscert.c b/src/tlscert.c
index acf086e..6036633 100644
--- a/src/tlscert.c
+++ b/src/tlscert.c
@@ -49,6 +49,7 @@ void ssl_cert_generate(const char *keyfile, const char *certfile,
 	size_t keyidsize = sizeof(keyid);
 	time_t activation = time(NULL), expiry = activation + LIFETIME;
 	int ret;
+	GError *error = NULL;
 
 	if (g_file_test(keyfile, G_FILE_TEST_EXISTS) ||
 		g_file_test(certfile, G_FILE_TEST_EXISTS) ||
@@ -132,7 +133,11 @@ void ssl_cert_generate(const char *keyfile, const char *certfile,
 
 	bufsize = sizeof(buf);
 	TLSCHECK(gnutls_x509_privkey_export(key, GNUTLS_X509_FMT_PEM, buf, &bufsize));
-	g_file_set_contents(keyfile, buf, bufsize, NULL);
+	if (!write_private_file(keyfile, buf, bufsize, &error)) {
+		log_global(LOG_WARNING, "Unable to write TLS key: %s", error->message);
+		g_error_free(error);
+		goto failed;
+	}
 
 	gnutls_x509_privkey_deinit(key);
 	gnutls_x509_privkey_deinit(cakey);
diff --git a/src/util.c b/src/util.c
index f060016..2986c82 100644
--- a/src/util.c
+++ b/src/util.c
@@ -211,6 +211,47 @@ pid_t read_pidfile(const char *path)
 	return pid;
 }
 
+/**
+ * Write a file that only its owner may read, reporting any error.
+ */
+gboolean write_private_file(const char *path, const char *data, gsize length,
+							GError **error)
+{
+	gsize pos = 0;
+	int fd;
+
+	fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
+	if (fd == -1) {
+		g_set_error(error, G_FILE_ERROR, g_file_error_from_errno(errno),
+					"opening file %s: %s", path, strerror(errno));
+		return FALSE;
+	}
+
+	while (pos < length) {
+		ssize_t ret = write(fd, data + pos, length - pos);
+
+		if (ret < 0 && errno == EINTR)
+			continue;
+
+		if (ret < 0) {
+			g_set_error(error, G_FILE_ERROR, g_file_error_from_errno(errno),
+						"writing file %s: %s", path, strerror(errno));
+			close(fd);
+			return FALSE;
+		}
+
+		pos += ret;
+	}
+
+	if (close(fd) != 0) {
+		g_set_error(error, G_FILE_ERROR, g_file_error_from_errno(errno),
+					"writing file %s: %s", path, strerror(errno));
+		return FALSE;
+	}
+
+	return TRUE;
+}
+
 gboolean write_pidfile(const char *path)
 {
 	GError *error = NULL;
-- 
2.43.0


From b1c315f63d75e77fffa2720efc9c994e33e2445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:00 +0000
Subject: [PATCH 59/86] fix: let only the owner connect to the UNIX domain
 sockets

---
 libirc/linestack.c | 2 +-
 src/admin.c        | 8 +++++++-
 src/listener.c     | 8 +++++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 79648bf..7fe9042 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -146,7 +146,7 @@ struct linestack_context *create_linestack(const char *data_dir,
 	g_free(state_file);
 
 	data->state_dir = g_build_filename(data_dir, "states", NULL);
-	g_mkdir(data->state_dir, 0755);
+	g_mkdir(data->state_dir, 0700);
 
 	if (!truncate) {
 		GIOStatus status;
diff --git a/src/admin.c b/src/admin.c
index b2b2921..f1bd4ee 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1869,6 +1869,8 @@ gboolean start_admin_socket(struct global *global)
 {
 	int sock;
 	struct sockaddr_un un;
+	mode_t old_umask;
+	int ret;
 
 	sock = socket(PF_UNIX, SOCK_STREAM, 0);
 	if (sock < 0) {
@@ -1884,7 +1886,11 @@ gboolean start_admin_socket(struct global *global)
 	}
 	unlink(un.sun_path);
 
-	if (bind(sock, (struct sockaddr *)&un, sizeof(un)) < 0) {
+	/* Only the owner may give commands */
+	old_umask = umask(0177);
+	ret = bind(sock, (struct sockaddr *)&un, sizeof(un));
+	umask(old_umask);
+	if (ret < 0) {
 		log_global(LOG_ERROR, "unable to bind to %s: %s", un.sun_path, strerror(errno));
 		return FALSE;
 	}
diff --git a/src/listener.c b/src/listener.c
index 5c6418c..c3116b2 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -410,6 +410,8 @@ gboolean start_unix_domain_socket_listener(struct global *global)
 {
 	int sock;
 	struct sockaddr_un un;
+	mode_t old_umask;
+	int ret;
 	struct irc_listener *l = g_new0(struct irc_listener, 1);
 	GIOChannel *ioc;
 
@@ -429,7 +431,11 @@ gboolean start_unix_domain_socket_listener(struct global *global)
 	}
 	unlink(un.sun_path);
 
-	if (bind(sock, (struct sockaddr *)&un, sizeof(un)) < 0) {
+	/* Clients on this socket are not asked for a password */
+	old_umask = umask(0177);
+	ret = bind(sock, (struct sockaddr *)&un, sizeof(un));
+	umask(old_umask);
+	if (ret < 0) {
 		log_global(LOG_ERROR, "unable to bind to %s: %s", un.sun_path, strerror(errno));
 		g_free(l);
 		return FALSE;
-- 
2.43.0


From 9b111eeabcbdb951d0bbb8164fe1808445af1fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:16 +0000
Subject: [PATCH 60/86] fix: report when the configuration can't be saved, and
 don't leave the rest of a longer password file in place

---
 src/admin.c    |  9 +++++--
 src/keyfile.c  | 38 ++++++++++-------------------
 src/nickserv.c |  1 +
 src/settings.c | 65 +++++++++++++++++++++++++++++++++++++-------------
 src/settings.h |  2 +-
 5 files changed, 70 insertions(+), 45 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index f1bd4ee..f921dce 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -339,14 +339,19 @@ static void cmd_save_config (admin_handle h, const char * const *args, void *use
 {
 	const char *adm_dir;
 	struct global *global = admin_get_global(h);
+	gboolean ret;
 	global_update_config(global);
 	if (global->restricted) {
 		adm_dir = global->config->config_dir;
 	} else {
 		adm_dir = args[1]?args[1]:global->config->config_dir;
 	}
-	save_configuration(global->config, adm_dir);
-	nickserv_save(global, adm_dir);
+	ret = save_configuration(global->config, adm_dir);
+	ret &= nickserv_save(global, adm_dir);
+	if (!ret) {
+		admin_out(h, "Unable to save configuration in %s", adm_dir);
+		return;
+	}
 	admin_out(h, "Configuration saved in %s", adm_dir);
 }
 
diff --git a/src/keyfile.c b/src/keyfile.c
index 66f68e2..f815ca7 100644
--- a/src/keyfile.c
+++ b/src/keyfile.c
@@ -88,37 +88,23 @@ gboolean keyfile_write_file(GList *nicks, const char *header,
 							const char *filename)
 {
 	GList *gl;
-	int fd;
-
-	fd = open(filename, O_WRONLY | O_CREAT, 0600);
-
-	if (fd == -1) {
-		log_global(LOG_WARNING, "Unable to write nickserv file `%s': %s", filename, strerror(errno));
-		return FALSE;
-	}
-
-	if (write(fd, header, strlen(header)) < 0) {
-		log_global(LOG_WARNING, "error writing file header: %s", strerror(errno));
-		close(fd);
-		return FALSE;
-	}
+	GString *data = g_string_new(header);
+	GError *error = NULL;
+	gboolean ret;
 
 	for (gl = nicks; gl; gl = gl->next) {
 		struct keyfile_entry *n = gl->data;
-		char *line;
-
-		line = g_strdup_printf("%s\t%s\t%s\n", n->nick, n->pass, n->network?n->network:"*");
-		if (write(fd, line, strlen(line)) < 0) {
-			log_global(LOG_WARNING, "error writing entry for `%s': %s", n->nick, strerror(errno));
-			g_free(line);
-			close(fd);
-			return FALSE;
-		}
 
-		g_free(line);
+		g_string_append_printf(data, "%s\t%s\t%s\n", n->nick, n->pass, n->network?n->network:"*");
 	}
 
-	close(fd);
+	ret = write_private_file(filename, data->str, data->len, &error);
+	if (!ret) {
+		log_global(LOG_WARNING, "Unable to write nickserv file: %s", error->message);
+		g_error_free(error);
+	}
 
-	return TRUE;
+	g_string_free(data, TRUE);
+
+	return ret;
 }
diff --git a/src/nickserv.c b/src/nickserv.c
index 2c68322..5df48fe 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -182,6 +182,7 @@ gboolean nickserv_save(struct global *global, const char *dir)
 		} else if (errno == ENOENT) {
 			ret = TRUE;
 		} else {
+			log_global(LOG_WARNING, "Unable to remove `%s': %s", filename, strerror(errno));
 			ret = FALSE;
 		}
 	} else {
diff --git a/src/settings.c b/src/settings.c
index 132b5c1..51bf213 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -168,7 +168,7 @@ static void config_save_tcp_servers(struct network_config *n, GKeyFile *kf, cons
 	g_strfreev(values);
 }
 
-static void config_save_network(struct ctrlproxy_config *cfg,
+static gboolean config_save_network(struct ctrlproxy_config *cfg,
 								const char *dir, struct network_config *n, GList **channel_keys)
 {
 	GList *gl;
@@ -258,17 +258,26 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 	g_free(autojoin_list);
 
 	if (n->filename != NULL) {
-		g_key_file_save_to_file(kf, n->filename, NULL);
+		GError *error = NULL;
+
+		if (!g_key_file_save_to_file(kf, n->filename, &error)) {
+			log_global(LOG_WARNING, "Unable to save network %s: %s", n->name, error->message);
+			g_error_free(error);
+			return FALSE;
+		}
 	}
+
+	return TRUE;
 }
 
-static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path)
+static gboolean config_save_listeners(struct ctrlproxy_config *cfg, const char *path)
 {
 	GList *gl;
 	char *filename;
 	GKeyFile *kf;
 	GError *error = NULL;
 	gboolean empty = TRUE;
+	gboolean ret = TRUE;
 
 	if (cfg->password != NULL)
 		g_key_file_set_string(cfg->keyfile, "global", "password", cfg->password);
@@ -331,35 +340,42 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 	}
 
 	if (empty) {
-		unlink(filename);
+		if (unlink(filename) != 0 && errno != ENOENT) {
+			log_global(LOG_WARNING, "Unable to remove \"%s\": %s", filename, strerror(errno));
+			ret = FALSE;
+		}
 	} else {
 		if (!g_key_file_save_to_file(kf, filename, &error)) {
 			log_global(LOG_WARNING, "Unable to save to \"%s\": %s", filename, error->message);
 			g_error_free(error);
+			ret = FALSE;
 		}
 	}
 
 	g_free(filename);
+
+	return ret;
 }
 
-static void config_save_networks(struct ctrlproxy_config *cfg, const char *config_dir, GList *networks)
+static gboolean config_save_networks(struct ctrlproxy_config *cfg, const char *config_dir, GList *networks)
 {
 	char *networksdir = g_build_filename(config_dir, "networks", NULL);
 	GList *gl;
 	GList *channel_keys = NULL;
+	gboolean ret = TRUE;
 
 	for (gl = networks; gl; gl = gl->next) {
 		struct network_config *n = gl->data;
 		if (n->filename != NULL && !g_file_test(networksdir, G_FILE_TEST_IS_DIR)) {
 			if (g_mkdir(networksdir, 0700) != 0) {
 				log_global(LOG_ERROR, "Can't create networks directory '%s': %s", networksdir, strerror(errno));
-				return;
+				return FALSE;
 			}
 		}
 
 
 		if (!n->implicit)
-			config_save_network(cfg, networksdir, n, &channel_keys);
+			ret &= config_save_network(cfg, networksdir, n, &channel_keys);
 	}
 
 	config_cleanup_networks_dir(cfg);
@@ -367,7 +383,7 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 	if (channel_keys != NULL) {
 		char *filename = g_build_filename(cfg->config_dir, "keys",
 									  NULL);
-		keyfile_write_file(channel_keys, CHANNEL_KEY_FILE_HEADER, filename);
+		ret &= keyfile_write_file(channel_keys, CHANNEL_KEY_FILE_HEADER, filename);
 		g_free(filename);
 
 		while (channel_keys) {
@@ -379,6 +395,8 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 	}
 
 	g_free(networksdir);
+
+	return ret;
 }
 
 /**
@@ -386,17 +404,20 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
  *
  * @param cfg The configuration to save.
  * @param configuration_dir Directory to save to.
+ * @return whether everything could be saved, otherwise the reason was logged
  */
-void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_dir)
+gboolean save_configuration(struct ctrlproxy_config *cfg, const char *configuration_dir)
 {
 	char *fn, **list;
 	int i;
 	GList *gl;
+	GError *error = NULL;
+	gboolean ret = TRUE;
 
 	if (!g_file_test(configuration_dir, G_FILE_TEST_IS_DIR)) {
 		if (g_mkdir(configuration_dir, 0700) != 0) {
-			log_global(LOG_ERROR, "Unable to open configuration directory '%s'\n", configuration_dir);
-			return;
+			log_global(LOG_ERROR, "Unable to open configuration directory '%s'", configuration_dir);
+			return FALSE;
 		}
 	}
 
@@ -469,9 +490,9 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 		g_key_file_has_key(cfg->keyfile, "global", "report-time-offset", NULL))
 		g_key_file_set_integer(cfg->keyfile, "global", "report-time-offset", cfg->report_time_offset);
 
-	config_save_networks(cfg, configuration_dir, cfg->networks);
+	ret &= config_save_networks(cfg, configuration_dir, cfg->networks);
 
-	config_save_listeners(cfg, configuration_dir);
+	ret &= config_save_listeners(cfg, configuration_dir);
 
 	config_save_log(cfg->log_file, cfg);
 
@@ -494,8 +515,14 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 	g_free(list);
 
 	fn = g_build_filename(configuration_dir, "config", NULL);
-	g_key_file_save_to_file(cfg->keyfile, fn, NULL);
+	if (!g_key_file_save_to_file(cfg->keyfile, fn, &error)) {
+		log_global(LOG_WARNING, "Unable to save to \"%s\": %s", fn, error->message);
+		g_error_free(error);
+		ret = FALSE;
+	}
 	g_free(fn);
+
+	return ret;
 }
 
 static void config_load_channel(struct network_config *n, GKeyFile *kf, const char *name)
@@ -1553,7 +1580,10 @@ gboolean create_configuration(const char *config_dir, gboolean from_source)
 		return FALSE;
 	}
 	global->config->config_dir = g_strdup(config_dir);
-	save_configuration(global->config, config_dir);
+	if (!save_configuration(global->config, config_dir)) {
+		fprintf(stderr, "Unable to save configuration\n");
+		return FALSE;
+	}
 
 	snprintf(port, sizeof(port), "%d", DEFAULT_ADMIN_PORT);
 	printf("Please specify port the administration interface should listen on.\n"
@@ -1582,7 +1612,10 @@ gboolean create_configuration(const char *config_dir, gboolean from_source)
 
 	global->config->listeners = g_list_append(global->config->listeners, l);
 
-	save_configuration(global->config, config_dir);
+	if (!save_configuration(global->config, config_dir)) {
+		fprintf(stderr, "Unable to save configuration\n");
+		return FALSE;
+	}
 
 	return TRUE;
 }
diff --git a/src/settings.h b/src/settings.h
index 94f9313..6ebbe98 100644
--- a/src/settings.h
+++ b/src/settings.h
@@ -237,7 +237,7 @@ struct ctrlproxy_config {
 
 /* config.c */
 G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT struct network_config *network_config_init(struct ctrlproxy_config *cfg);
-G_MODULE_EXPORT void save_configuration(struct ctrlproxy_config *cfg, const char *name);
+G_MODULE_EXPORT gboolean save_configuration(struct ctrlproxy_config *cfg, const char *name);
 G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT struct ctrlproxy_config *load_configuration(const char *dir, gboolean from_source);
 G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT struct ctrlproxy_config *init_configuration(void);
 G_MODULE_EXPORT void free_config(struct ctrlproxy_config *);
-- 
2.43.0


From 2eff14b7406ff5dd87a396e245690b832057efbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:01 +0000
Subject: [PATCH 61/86] fix: notice when the replay history can't be written

---
 libirc/linestack.c | 58 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 7fe9042..934a211 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -87,7 +87,8 @@ static gboolean marshall_network_state(enum marshall_mode m, GIOChannel *t,
 static gint64 g_io_channel_tell_position(GIOChannel *gio)
 {
 	int fd = g_io_channel_unix_get_fd(gio);
-	g_io_channel_flush(gio, NULL);
+	if (g_io_channel_flush(gio, NULL) != G_IO_STATUS_NORMAL)
+		return -1;
 	return lseek(fd, 0, SEEK_CUR);
 }
 
@@ -150,6 +151,8 @@ struct linestack_context *create_linestack(const char *data_dir,
 
 	if (!truncate) {
 		GIOStatus status;
+		gint64 offset;
+
 		status = g_io_channel_seek_position(data->index_file, 0, G_SEEK_END,
 											&error);
 		if (status != G_IO_STATUS_NORMAL) {
@@ -170,7 +173,14 @@ struct linestack_context *create_linestack(const char *data_dir,
 			return NULL;
 		}
 
-		data->count = g_io_channel_tell_position(data->index_file) / INDEX_RECORD_SIZE;
+		offset = g_io_channel_tell_position(data->index_file);
+		if (offset < 0) {
+			log_global(LOG_WARNING, "Error finding end of index file");
+			g_free(data);
+			return NULL;
+		}
+
+		data->count = offset / INDEX_RECORD_SIZE;
 
 		/* FIXME: Write the diff between the previously stored state and
 		 * the state to store now. */
@@ -368,9 +378,11 @@ gboolean linestack_traverse(struct linestack_context *nd,
 		return FALSE;
 
 	/* Flush channel before reading otherwise data corruption may occur */
-	g_io_channel_flush(nd->line_file, &error);
+	status = g_io_channel_flush(nd->line_file, &error);
+	LF_CHECK_IO_STATUS(status);
 
-	g_io_channel_flush(nd->index_file, &error);
+	status = g_io_channel_flush(nd->index_file, &error);
+	LF_CHECK_IO_STATUS(status);
 
 	if (lm_from == NULL) {
 		start_index = 0;
@@ -510,6 +522,7 @@ gboolean linestack_insert_line(struct linestack_context *nd,
 	GError *error = NULL;
 	GIOStatus status;
 	gboolean ret;
+	gint64 offset;
 
 	if (nd == NULL) return TRUE;
 
@@ -544,8 +557,14 @@ gboolean linestack_insert_line(struct linestack_context *nd,
 			return FALSE;
 	}
 
+	offset = g_io_channel_tell_position(nd->line_file);
+	if (offset < 0) {
+		log_global(LOG_ERROR, "Unable to write to linestack file");
+		return FALSE;
+	}
+
 	if (!write_index_entry(nd->index_file,
-					  g_io_channel_tell_position(nd->line_file),
+					  offset,
 					  time(NULL),
 					  nd->last_line_with_state))
 		return FALSE;
@@ -884,7 +903,7 @@ static gboolean marshall_modes(struct irc_network_state *nst, const char *name,
 static gboolean marshall_network_nick (struct irc_network_state *nst, const char *name, int level, enum marshall_mode m, GIOChannel *t, struct network_nick *n)
 {
 	gboolean ret = TRUE;
-	marshall_struct(t, m, level, name);
+	ret &= marshall_struct(t, m, level, name);
 	ret &= marshall_bool(nst, "query", level+1, m, t, &n->query);
 	ret &= marshall_modes(nst, "modes", level+1, m, t, n->modes);
 	ret &= marshall_string(nst, "nick", level+1, m, t, &n->nick);
@@ -917,7 +936,8 @@ struct ht_traverse_data
 
 static gboolean marshall_GList (struct irc_network_state *nst, const char *name, int level, enum marshall_mode m, GIOChannel *t, GList **gl, marshall_fn_t marshall_fn)
 {
-	marshall_struct(t, m, level, name);
+	if (!marshall_struct(t, m, level, name))
+		return FALSE;
 	if (m == MARSHALL_PULL) {
 		int count;
 		int i;
@@ -940,7 +960,8 @@ static gboolean marshall_GList (struct irc_network_state *nst, const char *name,
 		int i = 0;
 		GList *l;
 
-		marshall_int(nst, "count", level+1, m, t, &count);
+		if (!marshall_int(nst, "count", level+1, m, t, &count))
+			return FALSE;
 
 		for (l = *gl; l; l = l->next) {
 			char name[20];
@@ -958,7 +979,7 @@ static gboolean marshall_nicklist_entry (struct irc_network_state *nst, const ch
 {
 	gboolean ret = TRUE;
 	marshall_new(m, d);
-	marshall_struct(t, m, level, name);
+	ret &= marshall_struct(t, m, level, name);
 	ret &= marshall_time(nst, "time", level+1, m, t, &(*d)->time_set);
 	ret &= marshall_string(nst, "hostmask", level+1, m, t, &(*d)->hostmask);
 	ret &= marshall_string(nst, "by", level+1, m, t, &(*d)->by);
@@ -973,7 +994,7 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 	int i;
 	gboolean ret = TRUE;
 	marshall_new(m, c);
-	marshall_struct(t, m, level, name);
+	ret &= marshall_struct(t, m, level, name);
 
 	ret &= marshall_char(nst, "mode", level+1, m, t, &((*c)->mode));
 	ret &= marshall_modes(nst, "modes", level+1, m, t, (*c)->modes);
@@ -994,7 +1015,7 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 	}
 	(*c)->network = nst;
 
-	marshall_struct(t, m, level+1, "nicks");
+	ret &= marshall_struct(t, m, level+1, "nicks");
 
 	/* Nicks  */
 	if (m == MARSHALL_PULL) {
@@ -1012,7 +1033,7 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 			char tmp[10];
 			g_snprintf(tmp, sizeof(tmp), "[%d]", i);
 
-			marshall_struct(t, m, level+2, tmp);
+			ret &= marshall_struct(t, m, level+2, tmp);
 
 			if (!marshall_string(nst, "nick", level+3, m, t, &nick) ||
 				nick == NULL)
@@ -1032,13 +1053,13 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 		int i = 0;
 		GList *l;
 
-		marshall_int(nst, "count", level+2, m, t, &count);
+		ret &= marshall_int(nst, "count", level+2, m, t, &count);
 
 		for (l = (*c)->nicks; l; l = l->next) {
 			struct channel_nick *cn = l->data;
 			g_snprintf(tmp, sizeof(tmp), "[%d]", i);
 
-			marshall_struct(t, m, level+2, tmp);
+			ret &= marshall_struct(t, m, level+2, tmp);
 
 			if (!marshall_string(nst, "nick", level+3, m, t, &cn->global_nick->nick))
 				return FALSE;
@@ -1108,12 +1129,15 @@ static gboolean file_insert_state(struct linestack_context *nd,
 
 	nd->last_line_with_state = nd->count;
 
-	marshall_network_state(MARSHALL_PUSH, state_file, (struct irc_network_state *)state);
+	if (!marshall_network_state(MARSHALL_PUSH, state_file, (struct irc_network_state *)state)) {
+		log_global(LOG_ERROR, "Unable to write state to linestack");
+		g_io_channel_unref(state_file);
+		return FALSE;
+	}
 
 	status = g_io_channel_flush(state_file, &error);
-	LF_CHECK_IO_STATUS(status);
-
 	g_io_channel_unref(state_file);
+	LF_CHECK_IO_STATUS(status);
 
 	return TRUE;
 }
-- 
2.43.0


From 1d9d54a6626ff6ec682dad56d425aeda5cb9a198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:02 +0000
Subject: [PATCH 62/86] fix: report failures to write logs, certificates and
 the README of the replay history

---
 src/log_support.c |  9 ++++++---
 src/network.c     |  3 ++-
 src/tlscert.c     | 12 ++++++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/log_support.c b/src/log_support.c
index 0956505..32c2961 100644
--- a/src/log_support.c
+++ b/src/log_support.c
@@ -123,10 +123,13 @@ gboolean log_support_write(struct log_support_context *ctx,
 		ctx->num_opened++;
 	}
 
-	fputs(text, fi->file);
-	fflush(fi->file);
-
 	fi->last_used = time(NULL);
+
+	if (fputs(text, fi->file) == EOF || fflush(fi->file) != 0) {
+		log_global(LOG_ERROR, "Couldn't write to file %s: %s", path, strerror(errno));
+		return FALSE;
+	}
+
 	return TRUE;
 }
 
diff --git a/src/network.c b/src/network.c
index aa973c6..43f9677 100644
--- a/src/network.c
+++ b/src/network.c
@@ -592,7 +592,8 @@ struct linestack_context *new_linestack(struct irc_network *n,
 		g_mkdir(basedir, 0700);
 		readme_file = g_build_filename(basedir, "README", NULL);
 		if (!g_file_test(readme_file, G_FILE_TEST_EXISTS)) {
-			g_file_set_contents(readme_file, LINESTACK_README_CONTENTS, -1, NULL);
+			if (!g_file_set_contents(readme_file, LINESTACK_README_CONTENTS, -1, NULL))
+				log_global(LOG_WARNING, "Unable to write `%s'", readme_file);
 		}
 		g_free(readme_file);
 	}
diff --git a/src/tlscert.c b/src/tlscert.c
index 6036633..18a3f66 100644
--- a/src/tlscert.c
+++ b/src/tlscert.c
@@ -125,11 +125,19 @@ void ssl_cert_generate(const char *keyfile, const char *certfile,
 
 	bufsize = sizeof(buf);
 	TLSCHECK(gnutls_x509_crt_export(crt, GNUTLS_X509_FMT_PEM, buf, &bufsize));
-	g_file_set_contents(certfile, buf, bufsize, NULL);
+	if (!g_file_set_contents(certfile, buf, bufsize, &error)) {
+		log_global(LOG_WARNING, "Unable to write TLS certificate: %s", error->message);
+		g_error_free(error);
+		goto failed;
+	}
 
 	bufsize = sizeof(buf);
 	TLSCHECK(gnutls_x509_crt_export(cacrt, GNUTLS_X509_FMT_PEM, buf, &bufsize));
-	g_file_set_contents(cafile, buf, bufsize, NULL);
+	if (!g_file_set_contents(cafile, buf, bufsize, &error)) {
+		log_global(LOG_WARNING, "Unable to write TLS CA certificate: %s", error->message);
+		g_error_free(error);
+		goto failed;
+	}
 
 	bufsize = sizeof(buf);
 	TLSCHECK(gnutls_x509_privkey_export(key, GNUTLS_X509_FMT_PEM, buf, &bufsize));
-- 
2.43.0


From d900b010e080ad61717b99b3e64505a8ce24d28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:27 +0000
Subject: [PATCH 63/86] fix: report when the last lines of the replay history
 can't be written or its state can't be read

---
 libirc/linestack.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 934a211..12599bd 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -213,6 +213,10 @@ struct linestack_context *create_linestack(const char *data_dir,
 
 void free_linestack_context(struct linestack_context *data)
 {
+	if (g_io_channel_flush(data->line_file, NULL) != G_IO_STATUS_NORMAL ||
+		g_io_channel_flush(data->index_file, NULL) != G_IO_STATUS_NORMAL)
+		log_global(LOG_WARNING, "Unable to write last lines to linestack");
+
 	g_io_channel_unref(data->line_file);
 	g_io_channel_unref(data->index_file);
 	g_free(data->state_dir);
@@ -284,6 +288,7 @@ struct irc_network_state *linestack_get_state(
 
 	ret = network_state_init("", "", "");
 	if (!marshall_network_state(MARSHALL_PULL, state_file, ret)) {
+		log_global(LOG_WARNING, "Unable to read state from linestack");
 		g_io_channel_unref(state_file);
 		return NULL;
 	}
-- 
2.43.0


From 9ea388baa8837988a41ac6418af47c832a365316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:36 +0000
Subject: [PATCH 64/86] fix: daemon: don't look for the configuration of a user
 outside the configuration directory

---
 daemon/user.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/daemon/user.c b/daemon/user.c
index a6819be..f4902e1 100644
--- a/daemon/user.c
+++ b/daemon/user.c
@@ -51,9 +51,16 @@ void daemon_user_free(struct daemon_user *user)
 
 struct daemon_user *get_daemon_user(struct ctrlproxyd_config *config, const char *username)
 {
-	struct daemon_user *user = g_new0(struct daemon_user, 1);
+	struct daemon_user *user;
 	struct passwd *pwd;
 
+	/* The name becomes the name of a directory */
+	if (config->configdir != NULL &&
+		(username[0] == '\0' || username[0] == '.' || strchr(username, '/') != NULL))
+		return NULL;
+
+	user = g_new0(struct daemon_user, 1);
+
 	user->username = g_strdup(username);
 	user->child_watch = -1;
 
-- 
2.43.0


From e4d4ea250e925335092f7eb4ab14902f6a8d41b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:37 +0000
Subject: [PATCH 65/86] fix: a nick or target called ".." could choose a log
 file outside the log directory

---
 src/log_subst.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/log_subst.c b/src/log_subst.c
index fbaa732..1089fe5 100644
--- a/src/log_subst.c
+++ b/src/log_subst.c
@@ -243,6 +243,10 @@ static char *find_mapping(struct subst_context *subst_ctx,
 
 void convertslashes(char *a)
 {
+	/* Nor may a name be "..", which would be the parent directory */
+	if (*a == '.')
+		*a = '_';
+
 	while (*a) {
 		if (*a == '/')
 			*a = '_';
-- 
2.43.0


From 487ec2a447583d19c9554246101f4c3363b902d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:11 +0000
Subject: [PATCH 66/86] fix: keep lines in order when a write is blocked

A blocked write set up a second write event, and the event's handler went on
writing while earlier bytes were still in the buffer.
---
 libirc/transport_ioc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index ace8bb6..5c398b9 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -174,7 +174,7 @@ static gboolean irc_transport_iochannel_send_line(struct irc_transport *transpor
 		backend_data->outgoing_id = g_io_add_watch(backend_data->incoming, G_IO_OUT,
 										transport_send_queue, transport);
 		g_queue_push_tail(backend_data->pending_lines, linedup(l));
-		break;
+		return TRUE;
 	case G_IO_STATUS_EOF:
 		transport->callbacks->hangup(transport);
 		return FALSE;
@@ -349,7 +349,7 @@ static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 
 	status = g_io_channel_flush(backend_data->incoming, NULL);
 	if (status == G_IO_STATUS_AGAIN)
-		ret = TRUE;
+		return TRUE;
 
 	g_assert(backend_data->pending_lines != NULL);
 
@@ -369,6 +369,7 @@ static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
 			if (transport->callbacks->log != NULL)
 				transport->callbacks->log(transport, l, error);
 			g_error_free(error);
+			error = NULL;
 			break;
 		case G_IO_STATUS_EOF:
 			backend_data->outgoing_id = 0;
-- 
2.43.0


From ab47b6fac5f078c13e8d439ae94ae42a601f5474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:12 +0000
Subject: [PATCH 67/86] fix: write a line that doesn't fit in the channel's
 buffer completely

GLib dropped the rest of such a line when the connection was blocked.
---
 libirc/line.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libirc/line.c b/libirc/line.c
index 9b430ef..457ec1f 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -154,19 +154,26 @@ GIOStatus irc_send_line(GIOChannel *c, GIConv iconv,
 {
 	char *raw, *cvrt = NULL;
 	GIOStatus ret;
-	gsize bytes_written = 0;
+	gsize bytes_written = 0, len;
 
 	g_assert(c);
 
 	raw = irc_line_string_nl(l);
 	if (iconv != (GIConv)-1) {
 		cvrt = g_convert_with_iconv(raw, -1, iconv, NULL, NULL, error);
+		g_free(raw);
 		if (cvrt == NULL)
 			return G_IO_STATUS_ERROR;
-		g_free(raw);
 	} else {
 		cvrt = raw;
 	}
+
+	/* Part of a line that doesn't fit in the buffer would be dropped when
+	 * nothing more can be written at the moment */
+	len = strlen(cvrt);
+	if (g_io_channel_get_buffer_size(c) < len + 16)
+		g_io_channel_set_buffer_size(c, len + 16);
+
 	ret = g_io_channel_write_chars(c, cvrt, -1, &bytes_written, error);
 	g_free(cvrt);
 
-- 
2.43.0


From d59c61c3b44ad083635fb2a0fba769a46d228b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:27 +0000
Subject: [PATCH 68/86] fix: a setting that was unset came back after a restart

Settings that were set to no value at run time were not written, so that the
value saved earlier stayed in the configuration file.
---
 src/settings.c | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 51bf213..4cf403b 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -138,6 +138,18 @@ gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *file, GError **error
 	return ret;
 }
 
+/**
+ * Store a string, or remove the key when there is none so that the value
+ * that was saved earlier doesn't come back.
+ */
+static void config_save_string(GKeyFile *kf, const char *group, const char *key, const char *value)
+{
+	if (value != NULL)
+		g_key_file_set_string(kf, group, key, value);
+	else
+		g_key_file_remove_key(kf, group, key, NULL);
+}
+
 static void config_save_tcp_servers(struct network_config *n, GKeyFile *kf, const char *groupname)
 {
 	GList *gl;
@@ -425,8 +437,7 @@ gboolean save_configuration(struct ctrlproxy_config *cfg, const char *configurat
 		cfg->keyfile = g_key_file_new();
 
 	g_key_file_set_boolean(cfg->keyfile, "global", "autosave", cfg->autosave);
-	if (cfg->admin_user != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "admin-user", cfg->admin_user);
+	config_save_string(cfg->keyfile, "global", "admin-user", cfg->admin_user);
 
 	if (g_key_file_has_key(cfg->keyfile, "global", "admin-log", NULL) ||
 		!cfg->admin_log)
@@ -450,13 +461,9 @@ gboolean save_configuration(struct ctrlproxy_config *cfg, const char *configurat
 	if (g_key_file_has_key(cfg->keyfile, "global", "create-implicit", NULL) || !cfg->create_implicit)
 		g_key_file_set_boolean(cfg->keyfile, "global", "create-implicit", cfg->create_implicit);
 
-	if (cfg->client_charset != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "default-client-charset", cfg->client_charset);
-
-	if (cfg->replication)
-		g_key_file_set_string(cfg->keyfile, "global", "replication", cfg->replication);
-	if (cfg->motd_file != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "motd-file", cfg->motd_file);
+	config_save_string(cfg->keyfile, "global", "default-client-charset", cfg->client_charset);
+	config_save_string(cfg->keyfile, "global", "replication", cfg->replication);
+	config_save_string(cfg->keyfile, "global", "motd-file", cfg->motd_file);
 
 	switch (cfg->report_time) {
 	case REPORT_TIME_ALWAYS:
@@ -1203,20 +1210,19 @@ static void config_save_auto_away(struct auto_away_config *d, struct ctrlproxy_c
 		g_key_file_set_boolean(kf, "global", "auto-away-enable", d->enabled);
 	}
 
-	if (d->message != NULL) {
-		g_key_file_set_string(kf, "global", "auto-away-message", d->message);
-	}
-
-	if (d->nick != NULL) {
-		g_key_file_set_string(kf, "global", "auto-away-nick", d->nick);
-	}
+	config_save_string(kf, "global", "auto-away-message", d->message);
+	config_save_string(kf, "global", "auto-away-nick", d->nick);
 
 	if (d->client_limit != -1) {
 		g_key_file_set_integer(kf, "global", "auto-away-client-limit", d->client_limit);
+	} else {
+		g_key_file_remove_key(kf, "global", "auto-away-client-limit", NULL);
 	}
 
 	if (d->max_idle_time != -1) {
 		g_key_file_set_integer(kf, "global", "auto-away-time", d->max_idle_time);
+	} else {
+		g_key_file_remove_key(kf, "global", "auto-away-time", NULL);
 	}
 }
 
-- 
2.43.0


From dd56b1ed98f7aa8fd737446ed008597d9f024d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:27 +0000
Subject: [PATCH 69/86] fix: queue speed, reconnect interval and the last
 autoconnect network couldn't be reset

The keys were left in the configuration file when the setting was back at its
default.
---
 src/settings.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/settings.c b/src/settings.c
index 4cf403b..2d2248a 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -216,8 +216,12 @@ static gboolean config_save_network(struct ctrlproxy_config *cfg,
 
 	if (n->queue_speed)
 		g_key_file_set_integer(kf, n->groupname, "queue-speed", n->queue_speed);
+	else
+		g_key_file_remove_key(kf, n->groupname, "queue-speed", NULL);
 	if (n->reconnect_interval != -1)
 		g_key_file_set_integer(kf, n->groupname, "reconnect-interval", n->reconnect_interval);
+	else
+		g_key_file_remove_key(kf, n->groupname, "reconnect-interval", NULL);
 
 	switch(n->type) {
 	case NETWORK_VIRTUAL:
@@ -518,6 +522,8 @@ gboolean save_configuration(struct ctrlproxy_config *cfg, const char *configurat
 
 	if (i > 0)
 		g_key_file_set_string_list(cfg->keyfile, "global", "autoconnect", (const gchar **)list, i);
+	else
+		g_key_file_remove_key(cfg->keyfile, "global", "autoconnect", NULL);
 
 	g_free(list);
 
-- 
2.43.0


From f7d2e8f7a77a76e62ac6a7692e1ba3b87197736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:28 +0000
Subject: [PATCH 70/86] fix: a default listener that was removed, or its
 settings, came back after a restart

The port, address, network and password of the default listener were only ever
added to the configuration file, not removed from it.
---
 src/admin.c    |  3 +++
 src/settings.c | 25 ++++++++++++++++---------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index f921dce..af0ab55 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1512,6 +1512,9 @@ static gboolean password_set(admin_handle h, const char *value)
 
 		if (l->is_default) {
 			l->password = g_strdup(value);
+			/* Saved under the same key as the listener's password */
+			g_free(g->config->password);
+			g->config->password = g_strdup(value);
 			return TRUE;
 		}
 	}
diff --git a/src/settings.c b/src/settings.c
index 2d2248a..80e1a1b 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -295,34 +295,34 @@ static gboolean config_save_listeners(struct ctrlproxy_config *cfg, const char *
 	gboolean empty = TRUE;
 	gboolean ret = TRUE;
 
-	if (cfg->password != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "password", cfg->password);
+	config_save_string(cfg->keyfile, "global", "password", cfg->password);
 
-	if (cfg->auto_listener) {
+	if (cfg->auto_listener)
 		g_key_file_set_boolean(cfg->keyfile, "global", "listener-auto", cfg->auto_listener);
+	if (cfg->listener_autoport != 0)
 		g_key_file_set_integer(cfg->keyfile, "global", "listener-autoport", cfg->listener_autoport);
-	}
+	else
+		g_key_file_remove_key(cfg->keyfile, "global", "listener-autoport", NULL);
 
 	filename = g_build_filename(path, "listener", NULL);
 
 	kf = g_key_file_new();
 
+	cfg->default_listener = NULL;
 	for (gl = cfg->listeners; gl; gl = gl->next) {
 		struct listener_config *l = gl->data;
 
 		if (l->is_default) {
 			g_key_file_set_string(cfg->keyfile, "global", "port", l->port);
-			if (l->address != NULL)
-				g_key_file_set_string(cfg->keyfile, "global", "bind", l->address);
+			config_save_string(cfg->keyfile, "global", "bind", l->address);
 			if (l->password != NULL)
 				g_key_file_set_string(cfg->keyfile, "global", "password", l->password);
 
 			if (g_key_file_has_key(cfg->keyfile, "global", "ssl", NULL) || l->ssl)
 				g_key_file_set_boolean(cfg->keyfile, "global", "ssl", l->ssl);
 
-			if (l->network != NULL)
-				g_key_file_set_string(cfg->keyfile, "global", "default-network",
-								  l->network);
+			config_save_string(cfg->keyfile, "global", "default-network",
+							   l->network);
 			cfg->default_listener = l;
 		} else {
 			char *tmp;
@@ -355,6 +355,13 @@ static gboolean config_save_listeners(struct ctrlproxy_config *cfg, const char *
 		}
 	}
 
+	if (cfg->default_listener == NULL) {
+		g_key_file_remove_key(cfg->keyfile, "global", "port", NULL);
+		g_key_file_remove_key(cfg->keyfile, "global", "bind", NULL);
+		g_key_file_remove_key(cfg->keyfile, "global", "ssl", NULL);
+		g_key_file_remove_key(cfg->keyfile, "global", "default-network", NULL);
+	}
+
 	if (empty) {
 		if (unlink(filename) != 0 && errno != ENOENT) {
 			log_global(LOG_WARNING, "Unable to remove \"%s\": %s", filename, strerror(errno));
-- 
2.43.0


From f7200716e2b154dfe9904a8269625bab49c95fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:00 +0000
Subject: [PATCH 71/86] fix: custom logging set up in the old configuration
 format was lost

The settings are moved from the group [log-custom], which is removed, but that
custom logging is to be used was not written. Formats that aren't set caused a
warning for each save.
---
 src/settings.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/settings.c b/src/settings.c
index 80e1a1b..acc4019 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1079,7 +1079,7 @@ static void config_load_networks(struct ctrlproxy_config *cfg, GList *channel_ke
 }
 
 #define FETCH_SETTING(data, kf, section, prefix, name) (data)->name = g_key_file_get_string((kf), (section), prefix #name, NULL)
-#define STORE_SETTING(data, kf, section, prefix, name) g_key_file_set_string((kf), (section), prefix #name, (data)->name)
+#define STORE_SETTING(data, kf, section, prefix, name) config_save_string((kf), (section), prefix #name, (data)->name)
 
 static void config_save_log(struct log_file_config *data,
 							struct ctrlproxy_config *config)
@@ -1099,6 +1099,7 @@ static void config_save_log(struct log_file_config *data,
 			g_key_file_set_string(config->keyfile, "global", "logfile", data->logfilename);
 		}
 	} else {
+		g_key_file_set_string(config->keyfile, "global", "logging", "custom");
 		STORE_SETTING(data, config->keyfile, "global", "", logfilename);
 		STORE_SETTING(data, config->keyfile, "global", "log-format-", nickchange);
 		STORE_SETTING(data, config->keyfile, "global", "log-format-", topic);
-- 
2.43.0


From 1672b3d93e56f326a8b8ca264bd9ad4e9a89bc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:01 +0000
Subject: [PATCH 72/86] fix: a network that was deleted came back after a
 restart

Networks that were added at run time are kept as a group in the configuration
file, which wasn't removed.
---
 src/settings.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/settings.c b/src/settings.c
index acc4019..5c06585 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -997,7 +997,16 @@ struct network_config *config_find_network(struct ctrlproxy_config *cfg,
 
 void config_del_network(struct ctrlproxy_config *cfg, const char *name)
 {
-	cfg->networks = g_list_remove(cfg->networks, config_find_network(cfg, name));
+	struct network_config *nc = config_find_network(cfg, name);
+
+	if (nc == NULL)
+		return;
+
+	/* A network that isn't in a file of its own would be loaded again */
+	if (cfg->keyfile != NULL && nc->keyfile == cfg->keyfile)
+		g_key_file_remove_group(cfg->keyfile, nc->groupname, NULL);
+
+	cfg->networks = g_list_remove(cfg->networks, nc);
 }
 
 #define IS_SPECIAL_FILE(name) (name[0] == '.' || name[strlen(name)-1] == '~')
-- 
2.43.0


From be645240bc45e0ff92c84078a24bbad21f9ef177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:17 +0000
Subject: [PATCH 73/86] fix: the last channel key that was removed came back
 after a restart

The file with channel keys wasn't updated when there are no keys any more, and
was always written to the directory the configuration was loaded from.
---
 src/settings.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 5c06585..0168c08 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -385,6 +385,7 @@ static gboolean config_save_networks(struct ctrlproxy_config *cfg, const char *c
 	char *networksdir = g_build_filename(config_dir, "networks", NULL);
 	GList *gl;
 	GList *channel_keys = NULL;
+	char *filename;
 	gboolean ret = TRUE;
 
 	for (gl = networks; gl; gl = gl->next) {
@@ -403,11 +404,15 @@ static gboolean config_save_networks(struct ctrlproxy_config *cfg, const char *c
 
 	config_cleanup_networks_dir(cfg);
 
-	if (channel_keys != NULL) {
-		char *filename = g_build_filename(cfg->config_dir, "keys",
-									  NULL);
+	filename = g_build_filename(config_dir, "keys", NULL);
+
+	if (channel_keys == NULL) {
+		if (unlink(filename) != 0 && errno != ENOENT) {
+			log_global(LOG_WARNING, "Unable to remove \"%s\": %s", filename, strerror(errno));
+			ret = FALSE;
+		}
+	} else {
 		ret &= keyfile_write_file(channel_keys, CHANNEL_KEY_FILE_HEADER, filename);
-		g_free(filename);
 
 		while (channel_keys) {
 			g_free(channel_keys->data);
@@ -417,6 +422,7 @@ static gboolean config_save_networks(struct ctrlproxy_config *cfg, const char *c
 		g_list_free(channel_keys);
 	}
 
+	g_free(filename);
 	g_free(networksdir);
 
 	return ret;
-- 
2.43.0


From 22e61e063f143ad9a0a339fccd668385e481c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:10 +0000
Subject: [PATCH 74/86] fix: remove the watches of a transport before its data
 is released

---
 libirc/transport_ioc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 5c398b9..45e42f0 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -41,6 +41,8 @@ struct irc_transport_data_iochannel {
 static gboolean handle_transport_receive(GIOChannel *c, GIOCondition cond,
 									  void *_transport);
 
+static void really_disconnect(struct irc_transport_data_iochannel *backend_data);
+
 static void free_pending_line(void *_line, void *userdata)
 {
 	free_line((struct irc_line *)_line);
@@ -52,6 +54,10 @@ static void irc_transport_iochannel_free_data(void *data)
 
 	g_assert(backend_data->pending_disconnect);
 
+	/* Nothing can be sent any more, so don't wait for the pending lines */
+	if (backend_data->incoming != NULL)
+		really_disconnect(backend_data);
+
 	if (backend_data->outgoing_iconv != (GIConv)-1)
 		g_iconv_close(backend_data->outgoing_iconv);
 	if (backend_data->incoming_iconv != (GIConv)-1)
-- 
2.43.0


From 8580b2bd99954799f806e4393e237628dc8f2f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:11 +0000
Subject: [PATCH 75/86] fix: do not leave the child watch of a daemon user
 pending when the user is released

---
 daemon/user.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/daemon/user.c b/daemon/user.c
index f4902e1..21c9d2b 100644
--- a/daemon/user.c
+++ b/daemon/user.c
@@ -38,10 +38,21 @@ gboolean daemon_user_running(struct daemon_user *user)
 	return (user->pid != -1);
 }
 
+static void reap_child(GPid pid, gint status, gpointer data)
+{
+	g_spawn_close_pid(pid);
+}
+
 void daemon_user_free(struct daemon_user *user)
 {
 	if (user == NULL)
 		return;
+	if (user->child_watch != -1) {
+		/* The process outlives the information about its user */
+		g_source_remove(user->child_watch);
+		user->child_watch = -1;
+		g_child_watch_add(user->pid, reap_child, NULL);
+	}
 	g_free(user->pidpath);
 	g_free(user->socketpath);
 	g_free(user->configdir);
-- 
2.43.0


From 417227a8dca57f5af86842f2b7848d56db8c548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:11 +0000
Subject: [PATCH 76/86] fix: stop a listener before it is released

---
 src/listener.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/listener.c b/src/listener.c
index c3116b2..9e6f58f 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -306,6 +306,8 @@ void free_listener(struct irc_listener *l)
 {
 	l->global->listeners = g_list_remove(l->global->listeners, l);
 
+	listener_stop(l);
+
 	irc_network_unref(l->network);
 
 	g_free(l);
-- 
2.43.0


From 735019b3de3da0cd4e0a520fd3bfa499756c9a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:12 +0000
Subject: [PATCH 77/86] fix: remove the ping timer of a client that can not be
 set up

---
 libirc/client.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libirc/client.c b/libirc/client.c
index 757488e..215c9e4 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -424,6 +424,7 @@ struct irc_client *irc_client_new(struct irc_transport *transport,
 	client->description = g_strdup(desc);
 
 	if (!client_set_charset(client, DEFAULT_CLIENT_CHARSET)) {
+		g_source_remove(client->ping_id);
 		free_client(client);
 		return NULL;
 	}
-- 
2.43.0


From edc081998a751d655698f0cd535c6b921e16d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:13 +0000
Subject: [PATCH 78/86] fix: ping_server is a timeout callback and has to tell
 whether it should be called again

---
 libirc/connection.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index 912f129..0d2dc9c 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -397,16 +397,19 @@ static gboolean bindsock(struct irc_network *s,
  * @param server network to ping
  * @param ping_source GSource id of the ping event
  */
-static void ping_server(struct irc_network *server, gboolean ping_source)
+static gboolean ping_server(struct irc_network *server)
 {
 	gint silent_time = time(NULL) - server->connection.last_line_recvd;
 	if (silent_time > MAX_SILENT_TIME) {
 		network_report_disconnect(server, "Ping timeout (%d seconds)",
 								  silent_time);
 		reconnect(server);
+		return FALSE;
 	} else if (silent_time > MIN_SILENT_TIME) {
 		network_send_args(server, "PING", "ctrlproxy", NULL);
 	}
+
+	return TRUE;
 }
 
 static gboolean connect_current_tcp_server(struct irc_network *s)
-- 
2.43.0


From 541910fd25ccd7c149c2f5d1990c2696962c8a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:14 +0000
Subject: [PATCH 79/86] fix: a connection may be lost while it is being closed

---
 libirc/connection.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index 0d2dc9c..f4738d3 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -622,13 +622,15 @@ static gboolean close_server(struct irc_network *n)
 	case NETWORK_TCP:
 	case NETWORK_PROGRAM:
 	case NETWORK_IOCHANNEL:
-		irc_transport_disconnect(n->connection.transport);
+		if (n->connection.transport != NULL)
+			irc_transport_disconnect(n->connection.transport);
 		if (n->connection.data.tcp.ping_id > 0) {
 			g_source_remove(n->connection.data.tcp.ping_id);
 			n->connection.data.tcp.ping_id = 0;
 		}
 		free_tcp_names(n);
-		free_irc_transport(n->connection.transport);
+		if (n->connection.transport != NULL)
+			free_irc_transport(n->connection.transport);
 		n->connection.transport = NULL;
 		break;
 	case NETWORK_VIRTUAL:
@@ -640,6 +642,12 @@ static gboolean close_server(struct irc_network *n)
 		default: g_assert_not_reached();
 	}
 
+	/* The connection may have been lost while it was being closed */
+	if (n->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING) {
+		g_source_remove(n->reconnect_id);
+		n->reconnect_id = 0;
+	}
+
 	n->connection.state = NETWORK_CONNECTION_STATE_NOT_CONNECTED;
 
 	return TRUE;
-- 
2.43.0


From f4e0f244f32f78646744a4d990828e110a3830fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:15 +0000
Subject: [PATCH 80/86] fix: the ping timer of a network belongs to the
 connection, also if that is lost during login

---
 libirc/connection.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index f4738d3..ce5a480 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -707,12 +707,17 @@ static gboolean server_finish_connect(GIOChannel *ioc, GIOCondition cond,
 		s->connection.state = NETWORK_CONNECTION_STATE_CONNECTED;
 
 		s->connection.data.tcp.connect_id = 0; /* Otherwise data will be queued */
-		network_set_iochannel(s, ioc);
 
+		/* The connection may be lost as early as while logging in */
 		s->connection.last_line_recvd = time(NULL);
 		s->connection.data.tcp.ping_id = g_timeout_add(5000,
 									   (GSourceFunc) ping_server, s);
 
+		if (!network_set_iochannel(s, ioc)) {
+			network_report_disconnect(s, "Unable to use connection");
+			reconnect(s);
+		}
+
 		return FALSE;
 	}
 
-- 
2.43.0


From 8bf5f3a86f9ede4cb7e2d453ad7752b94b9ea5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:16 +0000
Subject: [PATCH 81/86] fix: a reconnect timer that goes off is no longer
 pending while the connection is made

---
 libirc/connection.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index ce5a480..962de3b 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -857,9 +857,23 @@ static gboolean connect_server(struct irc_network *s)
 
 static gboolean delayed_connect_server(struct irc_network *s)
 {
+	guint id;
+
 	g_assert(s);
+
+	id = s->reconnect_id;
+	s->reconnect_id = 0;
+	s->connection.state = NETWORK_CONNECTION_STATE_NOT_CONNECTED;
+
 	connect_server(s);
-	return (s->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING);
+
+	if (s->connection.state != NETWORK_CONNECTION_STATE_NOT_CONNECTED)
+		return FALSE;
+
+	/* Try again after the same time */
+	s->reconnect_id = id;
+	s->connection.state = NETWORK_CONNECTION_STATE_RECONNECT_PENDING;
+	return TRUE;
 }
 
 struct irc_network *irc_network_new(const struct irc_network_callbacks *callbacks, void *private_data)
-- 
2.43.0


From ff55c5056580fcad25245ac3591d2689f7a9fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:17 +0000
Subject: [PATCH 82/86] fix: remove the reconnect timer when a network is
 connected by hand

---
 libirc/connection.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libirc/connection.c b/libirc/connection.c
index 962de3b..ff0514d 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -909,6 +909,9 @@ gboolean connect_network(struct irc_network *s)
 	g_assert(s->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED ||
 			 s->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING);
 
+	if (s->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING)
+		close_server(s);
+
 	return connect_server(s);
 }
 
-- 
2.43.0


From 3d4472d0101944788ff1594e1aa51bd6125aa22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:56 +0000
Subject: [PATCH 83/86] fix: The end of the reply to TRACE ends the query

---
 libirc/redirect.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index f734fd2..664b13f 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -137,8 +137,8 @@ static struct query queries[] = {
 		{ RPL_TRACELINK, RPL_TRACECONNECTING,
 		  RPL_TRACEUNKNOWN, RPL_TRACEUSER, RPL_TRACECLASS,
 		  RPL_TRACEHANDSHAKE, RPL_TRACEOPERATOR,
-		  RPL_TRACESERVER, RPL_TRACENEWTYPE, 0 },
-		{ RPL_TRYAGAIN, 0 },
+		  RPL_TRACESERVER, RPL_TRACENEWTYPE, RPL_TRACELOG, 0 },
+		{ RPL_TRACEEND, RPL_TRYAGAIN, 0 },
 		{ ERR_NOSUCHSERVER, 0 },
 		handle_default
 	},
-- 
2.43.0


From 338b51bae64d5b4fcf50a34eccacf3d38a1f3247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:56 +0000
Subject: [PATCH 84/86] fix: The last line about the administrator ends the
 query

---
 libirc/redirect.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index 664b13f..79ae157 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -353,10 +353,9 @@ static struct query queries[] = {
 
  /* ADMIN [ <target> ] */
 	{ "ADMIN",
-		{ RPL_ADMINME, RPL_ADMINLOC2, RPL_ADMINLOC1,
-			RPL_ADMINLOC3, 0 },
-		{ RPL_TRYAGAIN, 0 },
-		{ ERR_NOSUCHSERVER, 0 },
+		{ RPL_ADMINME, RPL_ADMINLOC2, RPL_ADMINLOC1, 0 },
+		{ RPL_ADMINLOC3, RPL_TRYAGAIN, 0 },
+		{ ERR_NOSUCHSERVER, ERR_NOADMININFO, 0 },
 		handle_default
 	},
 	
-- 
2.43.0


From 9957123e2399be3a376c8bfb37a7f802cc87cfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:57 +0000
Subject: [PATCH 85/86] fix: The last line of the reply to LUSERS ends the
 query

---
 libirc/redirect.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index 79ae157..33a1cbf 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -337,8 +337,8 @@ static struct query queries[] = {
  /* LUSERS [ <mask> [ <target> ] ] */
 	{ "LUSERS",
 		{ RPL_LUSERCLIENT, RPL_LUSEROP, RPL_LUSERUNKNOWN, RPL_LUSERCHANNELS,
-			RPL_LUSERME, RPL_STATSTLINE, 0 },
-		{ RPL_TRYAGAIN, 0 },
+			RPL_STATSTLINE, 0 },
+		{ RPL_LUSERME, RPL_TRYAGAIN, 0 },
 		{ ERR_NOSUCHSERVER, 0 },
 		handle_default
 	},
-- 
2.43.0


From b0fd5cd3d9fe345ccc4c6a459585e09822c94a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:58 +0000
Subject: [PATCH 86/86] fix: SUMMON having been disabled ends the query

---
 libirc/redirect.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index 33a1cbf..2951b90 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -147,7 +147,8 @@ static struct query queries[] = {
 	{"SUMMON",
 		{ 0 },
 		{ RPL_SUMMONING, RPL_TRYAGAIN, 0 },
-		{ ERR_NORECIPIENT, ERR_FILEERROR, ERR_NOLOGIN, ERR_NOSUCHSERVER, 0 },
+		{ ERR_NORECIPIENT, ERR_FILEERROR, ERR_NOLOGIN, ERR_NOSUCHSERVER,
+		  ERR_SUMMONDISABLED, 0 },
 		handle_default
 	},
 	
-- 
2.43.0

