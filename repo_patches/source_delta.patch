From 0fee46f1c5ca3d08637557644662ad33ff54e085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:09 +0000
Subject: [PATCH 01/54] fix: do not destroy a connection's auth request twice
 when nothing is pending

start_auth() ran check_auth_finished() again after start_dns_ident() had
already done so.  If no DNS or ident lookup was started (NODNS, or a
loopback peer, on a server port) the first call destroyed the request and
the second put the same structure on the free list again, so two later
connections shared it.
---
 ircd/s_auth.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index 20ec3b3..47ae10f 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -1290,15 +1290,17 @@ void start_auth(struct Client* client)
     }
   }
 
-  /* Start DNS and ident queries, except websocket connections not having a handshake. */
-  if (!IsWebsocketPort(client) || IsWebsocket(client))
-    start_dns_ident(client);
-
   /* Add client to GlobalClientList. */
   add_client_to_list(client);
 
-  /* Check which auth events remain pending. */
-  check_auth_finished(auth, 0);
+  /* Start DNS and ident queries, except websocket connections not having a
+   * handshake.  start_dns_ident() also checks which auth events remain
+   * pending, which may destroy the auth request, so do not check again.
+   */
+  if (!IsWebsocketPort(client) || IsWebsocket(client))
+    start_dns_ident(client);
+  else
+    check_auth_finished(auth, 0);
 }
 
 /** Start DNS and ident queries for a client, if appropriate.
-- 
2.43.0


From 7f5c9968f5244412841ade530b5bd54848dea777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:16 +0000
Subject: [PATCH 02/54] fix: do not send a user a second JOIN for a channel he
 is already on

When a delayed join was revealed, and when a logged-in user set +x, the
JOIN (and away-notify AWAY) meant for the other members was also sent to
the user himself, who had seen his own JOIN already and never left.
---
 include/send.h | 1 +
 ircd/channel.c | 7 ++++---
 ircd/m_burst.c | 2 +-
 ircd/s_user.c  | 4 ++--
 ircd/send.c    | 6 ++++--
 5 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/send.h b/include/send.h
index fdf1f97..264ccdc 100644
--- a/include/send.h
+++ b/include/send.h
@@ -117,6 +117,7 @@ extern void sendcmdto_channel_butone(struct Client *from, const char *cmd,
 /* Send JOIN to all local channel users matching or not matching capability flags */
 extern void sendjointo_channel_butserv(struct Client *from,
 				       struct Channel *chptr,
+				       struct Client *one,
 				       capset_t require,
 				       capset_t forbid);
 
diff --git a/ircd/channel.c b/ircd/channel.c
index fb58324..171ad8c 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -3702,7 +3702,7 @@ joinbuf_join(struct JoinBuf *jbuf, struct Channel *chan, unsigned int flags)
 
     if (!((chan->mode.mode & MODE_DELJOINS) && !(flags & CHFL_VOICED_OR_OPPED))) {
       /* Send the notification to the channel */
-      sendjointo_channel_butserv(jbuf->jb_source, chan, 0, 0);
+      sendjointo_channel_butserv(jbuf->jb_source, chan, NULL, 0, 0);
       if (cli_user(jbuf->jb_source)->away)
         sendcmdto_capflag_common_channels_butone(jbuf->jb_source, CMD_AWAY, jbuf->jb_connect,
           CAP_AWAYNOTIFY, 0, ":%s", cli_user(jbuf->jb_source)->away);
@@ -3797,10 +3797,11 @@ int IsInvited(struct Client* cptr, const void* chptr)
 void RevealDelayedJoin(struct Membership *member)
 {
   ClearDelayedJoin(member);
-  sendjointo_channel_butserv(member->user, member->channel, 0, 0);
+  /* The user saw his own JOIN when he joined. */
+  sendjointo_channel_butserv(member->user, member->channel, member->user, 0, 0);
   if (cli_user(member->user)->away)
     sendcmdto_capflag_channel_butserv_butone(member->user, CMD_AWAY, member->channel,
-      NULL, 0, CAP_AWAYNOTIFY, 0, ":%s", cli_user(member->user)->away);
+      member->user, 0, CAP_AWAYNOTIFY, 0, ":%s", cli_user(member->user)->away);
   CheckDelayedJoins(member->channel);
 }
 
diff --git a/ircd/m_burst.c b/ircd/m_burst.c
index b4f4b40..9c1a511 100644
--- a/ircd/m_burst.c
+++ b/ircd/m_burst.c
@@ -548,7 +548,7 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 	  {
 	    add_user_to_channel(chptr, acptr, current_mode, oplevel);
 	    if (!(current_mode & CHFL_DELAYED)) {
-	      sendjointo_channel_butserv(acptr, chptr, 0, 0);
+	      sendjointo_channel_butserv(acptr, chptr, NULL, 0, 0);
               if (cli_user(acptr)->away)
                 sendcmdto_capflag_channel_butserv_butone(acptr, CMD_AWAY, chptr,
                   NULL, 0, CAP_AWAYNOTIFY, 0, ":%s", cli_user(acptr)->away);
diff --git a/ircd/s_user.c b/ircd/s_user.c
index 2bdce11..9d41815 100644
--- a/ircd/s_user.c
+++ b/ircd/s_user.c
@@ -960,10 +960,10 @@ hide_hostmask(struct Client *cptr, unsigned int flag)
     /* Send a JOIN unless the user's join has been delayed. */
     if (!IsDelayedJoin(chan))
     {
-      sendjointo_channel_butserv(cptr, chan->channel, 0, CAP_CHGHOST);
+      sendjointo_channel_butserv(cptr, chan->channel, cptr, 0, CAP_CHGHOST);
       if (cli_user(cptr)->away)
         sendcmdto_capflag_channel_butserv_butone(cptr, CMD_AWAY, chan->channel,
-          NULL, 0, CAP_AWAYNOTIFY, CAP_CHGHOST, ":%s", cli_user(cptr)->away);
+          cptr, 0, CAP_AWAYNOTIFY, CAP_CHGHOST, ":%s", cli_user(cptr)->away);
     }
     if (IsChanOp(chan) && HasVoice(chan))
       sendcmdto_capflag_channel_butserv_butone(&his, CMD_MODE, chan->channel, cptr, 0,
diff --git a/ircd/send.c b/ircd/send.c
index b2715d4..4d322ac 100644
--- a/ircd/send.c
+++ b/ircd/send.c
@@ -831,17 +831,19 @@ void sendcmdto_capflag_channel_butserv_butone(struct Client *from, const char *c
  * capability flags.
  * @param[in] from Client joining the channel.
  * @param[in] chptr Channel being joined.
+ * @param[in] one Client to skip (or NULL).
  * @param[in] require Capability mask to send this message for.
  * @param[in] forbid Capability mask to block this message for.
  */
 void sendjointo_channel_butserv(struct Client *from, struct Channel *chptr,
+				struct Client *one,
 				capset_t require,
 				capset_t forbid)
 {
-  sendcmdto_capflag_channel_butserv_butone(from, CMD_JOIN, chptr, NULL,
+  sendcmdto_capflag_channel_butserv_butone(from, CMD_JOIN, chptr, one,
     0, require | CAP_EXTJOIN, forbid, "%H %s :%s", chptr,
     IsAccount(from) ? cli_account(from) : "*", cli_info(from));
-  sendcmdto_capflag_channel_butserv_butone(from, CMD_JOIN, chptr, NULL,
+  sendcmdto_capflag_channel_butserv_butone(from, CMD_JOIN, chptr, one,
     0, require, forbid | CAP_EXTJOIN, "%H", chptr);
 }
 
-- 
2.43.0


From 46e26e2a11b98c8583ae005e5d531cde9490c93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:44 +0000
Subject: [PATCH 03/54] fix: reset limit and keys of a channel when an older
 burst overrides it

An older burst without modes left the newer side's limit, key and
passwords set, and one with modes announced their removal to the
members without removing them.
---
 ircd/channel.c | 15 ---------------
 ircd/m_burst.c | 16 +++++++++++++++-
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/ircd/channel.c b/ircd/channel.c
index 171ad8c..d4ecda8 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -3582,21 +3582,6 @@ mode_parse(struct ModeBuf *mbuf, struct Client *cptr, struct Client *sptr,
     state.chptr->mode.mode = t_mode;
   }
 
-  if (state.flags & MODE_PARSE_WIPEOUT) {
-    if (state.chptr->mode.limit && !(state.done & DONE_LIMIT))
-      modebuf_mode_uint(state.mbuf, MODE_DEL | MODE_LIMIT,
-			state.chptr->mode.limit);
-    if (*state.chptr->mode.key && !(state.done & DONE_KEY_DEL))
-      modebuf_mode_string(state.mbuf, MODE_DEL | MODE_KEY,
-			  state.chptr->mode.key, 0);
-    if (*state.chptr->mode.upass && !(state.done & DONE_UPASS_DEL))
-      modebuf_mode_string(state.mbuf, MODE_DEL | MODE_UPASS,
-			  state.chptr->mode.upass, 0);
-    if (*state.chptr->mode.apass && !(state.done & DONE_APASS_DEL))
-      modebuf_mode_string(state.mbuf, MODE_DEL | MODE_APASS,
-			  state.chptr->mode.apass, 0);
-  }
-
   if (state.done & DONE_BANCLEAN) /* process bans */
     mode_process_bans(&state);
 
diff --git a/ircd/m_burst.c b/ircd/m_burst.c
index 9c1a511..03a9b8d 100644
--- a/ircd/m_burst.c
+++ b/ircd/m_burst.c
@@ -215,6 +215,7 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
   unsigned int parse_flags = (MODE_PARSE_FORCE | MODE_PARSE_BURST);
   int param, nickpos = 0, banpos = 0;
   char modestr[BUFSIZE], nickstr[BUFSIZE], banstr[BUFSIZE];
+  char oldkey[KEYLEN + 1] = "", oldupass[KEYLEN + 1] = "", oldapass[KEYLEN + 1] = "";
 
   if (parc < 3)
     return protocol_violation(sptr,"Too few parameters for BURST");
@@ -343,7 +344,13 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
     modebuf_mode(mbuf, MODE_DEL | chptr->mode.mode); /* wipeout modes */
     chptr->mode.mode &= MODE_BURSTADDED | MODE_WASDELJOINS;
 
-    /* wipeout any limit and keys that are set */
+    /* wipeout any limit and keys that are set; keys that the burst does
+     * not replace are announced as removed below */
+    chptr->mode.limit = 0;
+    ircd_strncpy(oldkey, chptr->mode.key, KEYLEN);
+    ircd_strncpy(oldupass, chptr->mode.upass, KEYLEN);
+    ircd_strncpy(oldapass, chptr->mode.apass, KEYLEN);
+    *chptr->mode.key = *chptr->mode.upass = *chptr->mode.apass = '\0';
     parse_flags |= (MODE_PARSE_SET | MODE_PARSE_WIPEOUT);
 
     /* mark bans for wipeout */
@@ -589,6 +596,13 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
     mode_ban_invalidate(chptr);
 
   if (parse_flags & MODE_PARSE_SET) { /* any modes changed? */
+    if (*oldkey && !*chptr->mode.key)
+      modebuf_mode_string(mbuf, MODE_DEL | MODE_KEY, oldkey, 0);
+    if (*oldupass && !*chptr->mode.upass)
+      modebuf_mode_string(mbuf, MODE_DEL | MODE_UPASS, oldupass, 0);
+    if (*oldapass && !*chptr->mode.apass)
+      modebuf_mode_string(mbuf, MODE_DEL | MODE_APASS, oldapass, 0);
+
     /* first deal with channel members */
     for (member = chptr->members; member; member = member->next_member) {
       if (member->status & CHFL_BURST_JOINED) { /* joined during burst */
-- 
2.43.0


From 47a1f840b58a93bcceff862ad2fd8be8662fecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:28 +0000
Subject: [PATCH 04/54] fix: do not spin while a TLS handshake waits for the
 peer

A connection that negotiates TLS was registered for writability only, so
the event loop spun until the peer spoke; a silent peer also kept its
negotiation open for ever.  Ask for the readiness the TLS library waits
for, and close negotiations which outlive TLS_HANDSHAKE_TIMEOUT.
---
 ircd/s_bsd.c       | 18 +++++++++++++++++-
 ircd/tls_gnutls.c  |  4 ++++
 ircd/tls_libtls.c  |  4 ++++
 ircd/tls_openssl.c |  8 +++++++-
 4 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/ircd/s_bsd.c b/ircd/s_bsd.c
index 15036f2..5e8aeb7 100644
--- a/ircd/s_bsd.c
+++ b/ircd/s_bsd.c
@@ -619,7 +619,12 @@ void add_connection(struct Listener* listener, int fd) {
   {
     SetTLS(new_client);
     SetNegotiatingTLS(new_client);
-    socket_events(&cli_socket(new_client), SOCK_EVENT_WRITABLE);
+    socket_events(&cli_socket(new_client),
+                  SOCK_EVENT_READABLE | SOCK_EVENT_WRITABLE);
+    /* A peer that never speaks must not hold the connection forever. */
+    cli_freeflag(new_client) |= FREEFLAG_TIMER;
+    timer_add(&(cli_proc(new_client)), client_timer_callback,
+              cli_connect(new_client), TT_RELATIVE, TLS_HANDSHAKE_TIMEOUT + 1);
   }
 
   Count_newunknown(UserStats);
@@ -1087,6 +1092,9 @@ static int tls_negotiate_client(struct Client *cptr, char **fmt, char **fallback
 /** Continue client setup after an inbound or outbound TLS handshake completes. */
 static void tls_handshake_succeeded(struct Client *cptr)
 {
+  /* The handshake timer started by add_connection() is not needed anymore. */
+  if (t_onqueue(&(cli_proc(cptr))))
+    timer_del(&(cli_proc(cptr)));
   if (IsConnecting(cptr))
     completed_connection(cptr);
   else if (!cli_auth(cptr))
@@ -1197,6 +1205,9 @@ static void client_sock_callback(struct Event* ev)
         }
         /* TLS negotiation succeeded */
         tls_handshake_succeeded(cptr);
+        /* ... but the client may not have survived what follows it. */
+        if (con_client(con) != cptr || IsDead(cptr))
+          return;
       }
       if (read_packet(cptr, 1) == 0) /* error while reading packet */
         fallback = "EOF from client";
@@ -1250,6 +1261,11 @@ static void client_timer_callback(struct Event* ev)
 
     if (!con_freeflag(con) && !cptr)
       free_connection(con); /* client is being destroyed */
+  } else if (IsNegotiatingTLS(cptr)) {
+    tls_negotiation_failed(cptr);
+    SetFlag(cptr, FLAG_DEADSOCKET);
+    exit_client(cptr, cptr, &me, "TLS negotiation timed out");
+    return;
   } else {
     Debug((DEBUG_LIST, "Client process timer for %C expired; processing",
 	   cptr));
diff --git a/ircd/tls_gnutls.c b/ircd/tls_gnutls.c
index cb1cf3a..ded371d 100644
--- a/ircd/tls_gnutls.c
+++ b/ircd/tls_gnutls.c
@@ -445,6 +445,10 @@ int ircd_tls_negotiate(struct Client *cptr)
   case GNUTLS_E_AGAIN:
   case GNUTLS_E_WARNING_ALERT_RECEIVED:
   case GNUTLS_E_GOT_APPLICATION_DATA:
+    /* Only ask for write events if GnuTLS waits for one. */
+    socket_events(&cli_socket(cptr),
+                  (gnutls_record_get_direction(tls) ? SOCK_ACTION_ADD
+                   : SOCK_ACTION_DEL) | SOCK_EVENT_WRITABLE);
     return 0;
 
   case GNUTLS_E_SUCCESS:
diff --git a/ircd/tls_libtls.c b/ircd/tls_libtls.c
index 92fb72a..0e8c5cb 100644
--- a/ircd/tls_libtls.c
+++ b/ircd/tls_libtls.c
@@ -561,6 +561,10 @@ int ircd_tls_negotiate(struct Client *cptr)
   }
   
   if (res == TLS_WANT_POLLIN || res == TLS_WANT_POLLOUT) {
+    /* Only ask for write events if libtls waits for one. */
+    socket_events(&cli_socket(cptr),
+                  (res == TLS_WANT_POLLOUT ? SOCK_ACTION_ADD : SOCK_ACTION_DEL)
+                  | SOCK_EVENT_WRITABLE);
     return 0; /* Handshake in progress */
   }
   
diff --git a/ircd/tls_openssl.c b/ircd/tls_openssl.c
index 21b8cc2..bb82509 100644
--- a/ircd/tls_openssl.c
+++ b/ircd/tls_openssl.c
@@ -836,7 +836,13 @@ int ircd_tls_negotiate(struct Client *cptr)
       write(cli_fd(cptr), error_ssl, strlen(error_ssl));
       return -1;
     }
-    /* ssl_result == IO_BLOCKED - handshake still in progress */
+    /* ssl_result == IO_BLOCKED - handshake still in progress.  Only ask for
+     * write events if that is what OpenSSL waits for: an idle socket is
+     * always writable.
+     */
+    socket_events(&cli_socket(cptr),
+                  (SSL_want_write(tls) ? SOCK_ACTION_ADD : SOCK_ACTION_DEL)
+                  | SOCK_EVENT_WRITABLE);
     return 0;
   }
 
-- 
2.43.0


From ba746ffa2a5d9e7f02cfa26c2f504b76890aa55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:02 +0000
Subject: [PATCH 05/54] fix: survive iauth lines that lack parameters

A client command without any parameter ("D"), or a user mode command
without a mode ("M <id> <ip> <port>"), made the server dereference a
null pointer.
---
 ircd/s_auth.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index 47ae10f..132041c 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -2336,7 +2336,7 @@ static int iauth_cmd_kill(struct IAuth *iauth, struct Client *cli,
 static int iauth_cmd_usermode(struct IAuth *iauth, struct Client *cli,
                               int parc, char **params)
 {
-  if (params[0][0] == '+')
+  if (parc > 0 && params[0][0] == '+')
   {
     set_user_mode(cli, cli, parc + 2, params - 2, ALLOWMODES_ANY);
   }
@@ -2481,7 +2481,7 @@ static void iauth_parse(struct IAuth *iauth, char *message)
     handler(iauth, NULL, parc, params);
   } else {
     /* Try to find the client associated with the request. */
-    id = strtol(params[0], NULL, 10);
+    id = (parc > 0) ? strtol(params[0], NULL, 10) : -1;
     if (parc < 3)
       sendto_iauth(NULL, "E Missing :Need <id> <ip> <port>");
     else if (id < 0 || id > HighestFd || !(cli = LocalClientArray[id]))
-- 
2.43.0


From 499e8f104f5c50fa34738874c7d83f124e79e5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:02 +0000
Subject: [PATCH 06/54] fix: keep track of a running DNS lookup when iauth
 overrides the IP

The override cleared AR_DNS_PENDING while the query was outstanding, so
the request could complete and be freed without cancelling the query,
whose late answer was then delivered to the freed (or reused) request.
---
 ircd/s_auth.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index 132041c..f06a981 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -2156,8 +2156,11 @@ static int iauth_cmd_ip_address(struct IAuth *iauth, struct Client *cli,
   memcpy(&cli_ip(cli), &addr, sizeof(cli_ip(cli)));
   IPcheck_remote_connect(cli, 0);
 
-  /* Treat as a DNS update to trigger G-line/Kill checks. */
-  return AR_DNS_PENDING;
+  /* A DNS lookup that is still running triggers the G-line/Kill checks
+   * when it completes; otherwise treat this as a DNS update to trigger
+   * them.
+   */
+  return FlagHas(&auth->flags, AR_DNS_PENDING) ? 0 : AR_DNS_PENDING;
 }
 
 /** Find a ConfItem structure for a named connection class.
-- 
2.43.0


From ed4d6c0fc2eeba58043e815ec85adc7504f3d768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:02 +0000
Subject: [PATCH 07/54] fix: ignore a USER command that follows the K-line
 check

A second USER sent after the check but before registration completed
replaced the user name and real name: it evaded K- and G-lines and
dropped the "~" prefix of an unverified name.
---
 ircd/s_auth.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index f06a981..4f17fe0 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -1364,7 +1364,11 @@ int auth_set_user(struct AuthRequest *auth, const char *username, const char *ho
   struct Client *cptr;
 
   assert(auth != NULL);
-  if (FlagHas(&auth->flags, AR_IAUTH_HURRY))
+  /* Once K- and G-lines have been checked, the name is final: accepting
+   * another one would bypass them and the ident prefix.
+   */
+  if (FlagHas(&auth->flags, AR_IAUTH_HURRY)
+      || FlagHas(&auth->flags, AR_GLINE_CHECKED))
     return 0;
   cptr = auth->client;
   ircd_strncpy(cli_info(cptr), userinfo, REALLEN);
-- 
2.43.0


From 04d108670e4d345c51cbedef49b31a4e383eed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:30 +0000
Subject: [PATCH 08/54] fix: do not crash on a PONG sent to a server port

---
 ircd/m_pong.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ircd/m_pong.c b/ircd/m_pong.c
index d18deec..4e88226 100644
--- a/ircd/m_pong.c
+++ b/ircd/m_pong.c
@@ -166,7 +166,9 @@ int mr_pong(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   assert(!IsRegistered(sptr));
 
   ClearPingSent(cptr);
-  return (parc > 1) ? auth_set_pong(cli_auth(sptr), strtoul(parv[parc - 1], NULL, 10)) : 0;
+  /* Connections to server ports have no authorization request. */
+  return (parc > 1 && cli_auth(sptr))
+    ? auth_set_pong(cli_auth(sptr), strtoul(parv[parc - 1], NULL, 10)) : 0;
 }
 
 /*
-- 
2.43.0


From a4ee5c29b12410da56d9c36c061b749bb836302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:30 +0000
Subject: [PATCH 09/54] fix: forget a SASL session that was aborted or timed
 out

---
 ircd/m_sasl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ircd/m_sasl.c b/ircd/m_sasl.c
index 4bf054d..bdf5544 100644
--- a/ircd/m_sasl.c
+++ b/ircd/m_sasl.c
@@ -124,6 +124,7 @@ static void sasl_timeout_callback(struct Event* ev)
     
     /* Clear SASL session */
     sasl_stop_timeout(cptr);
+    sasl_session_remove(cli_sasl(cptr));
     cli_sasl(cptr) = 0;
   }
 }
@@ -177,6 +178,7 @@ int m_sasl(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
     /* SASL abort - stop timeout and clear session */
     if (cli_sasl(cptr)) {
       sasl_stop_timeout(cptr);
+      sasl_session_remove(cli_sasl(cptr));
       cli_sasl(cptr) = 0;
     }
     send_reply(cptr, ERR_SASLABORTED);
-- 
2.43.0


From 9725885268b847daef60c6ea78e7d4f4283bf5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:30 +0000
Subject: [PATCH 10/54] fix: ignore AUTHENTICATE on server ports

---
 ircd/m_sasl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ircd/m_sasl.c b/ircd/m_sasl.c
index bdf5544..c41bf33 100644
--- a/ircd/m_sasl.c
+++ b/ircd/m_sasl.c
@@ -164,6 +164,10 @@ int m_sasl(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   if (!CapHas(cli_active(cptr), CAP_SASL))
     return 0;
 
+  /* An unregistered connection to a server port cannot log in. */
+  if (!IsUser(cptr) && !cli_auth(cptr))
+    return 0;
+
   if (HasFlag(sptr, FLAG_SASL) || HasFlag(sptr, FLAG_ACCOUNT))
     return send_reply(cptr, ERR_SASLALREADY);
 
-- 
2.43.0


From e7017e2b847fb86c4ffaadf5e860a7d5ce0a4b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 11/54] fix: send WebSocket control frames through the sendQ

---
 ircd/websocket.c | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/ircd/websocket.c b/ircd/websocket.c
index 16e73f4..02af85b 100644
--- a/ircd/websocket.c
+++ b/ircd/websocket.c
@@ -65,32 +65,26 @@ static int websocket_send_handshake(struct Client *cptr, const char *accept_key,
 static void trim_http_field(char *str);
 static int websocket_apply_client_ip(struct Client *cptr, const char *ip);
 
-/** Write raw octets to a WebSocket client (TLS-aware, no IRC/WS framing). */
+/** Write raw octets to a WebSocket client (TLS-aware, no IRC/WS framing).
+ * The octets go through the sendQ, so that they cannot end up inside a frame
+ * that was only partly written, and are not lost on a short write. */
 static int websocket_write_raw(struct Client *cptr, const void *data, size_t len)
 {
   struct MsgBuf *mb;
-  unsigned int count;
 
   if (!cptr || len == 0 || len > UINT_MAX)
     return -1;
   if (IsNegotiatingTLS(cptr))
     return -1;
 
-  if (IsTLS(cptr) && s_tls(&cli_socket(cptr))) {
-    mb = msgq_raw_alloc(cptr, (unsigned int)len);
-    if (!mb)
-      return -1;
-    memcpy(mb->msg, data, len);
-    mb->length = (unsigned int)len;
-    send_raw_buffer(cptr, mb, 0);
-    msgq_clean(mb);
-    if (IsDead(cptr))
-      return -1;
-    return 0;
-  }
-
-  if (os_send_nonb(cli_fd(cptr), data, (unsigned int)len, &count) != IO_SUCCESS
-      || count != len)
+  mb = msgq_raw_alloc(cptr, (unsigned int)len);
+  if (!mb)
+    return -1;
+  memcpy(mb->msg, data, len);
+  mb->length = (unsigned int)len;
+  send_raw_buffer(cptr, mb, 0);
+  msgq_clean(mb);
+  if (IsDead(cptr))
     return -1;
   return 0;
 }
-- 
2.43.0


From 106683f55924b51ca1ef870f66c6320326e5409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:15 +0000
Subject: [PATCH 12/54] fix: tell the client on the highest descriptor about
 capability changes too

---
 ircd/m_cap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ircd/m_cap.c b/ircd/m_cap.c
index 4f48c7b..07428d0 100644
--- a/ircd/m_cap.c
+++ b/ircd/m_cap.c
@@ -389,7 +389,7 @@ void cap_new(enum Capab cap)
     return;
   
   /* Iterate through all local clients */
-  for (i = 0; i < HighestFd; i++) {
+  for (i = 0; i <= HighestFd; i++) {
     if (!(acptr = LocalClientArray[i]))
       continue;
       
@@ -431,7 +431,7 @@ void cap_del(enum Capab cap)
   }
   
   /* Iterate through all local clients */
-  for (i = 0; i < HighestFd; i++) {
+  for (i = 0; i <= HighestFd; i++) {
     if (!(acptr = LocalClientArray[i]))
       continue;
       
-- 
2.43.0


From 35253906c937cfa72c20721ca94e2f298eecd885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:44 +0000
Subject: [PATCH 13/54] fix: setting a global BADCHAN needs the badchan
 privilege

---
 ircd/m_gline.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/m_gline.c b/ircd/m_gline.c
index 1c4b544..88db0c8 100644
--- a/ircd/m_gline.c
+++ b/ircd/m_gline.c
@@ -612,7 +612,8 @@ mo_gline(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
   } else { /* global privileges required */
     if (!feature_bool(FEAT_CONFIG_OPERCMDS))
       return send_reply(sptr, ERR_DISABLED, "GLINE");
-    else if (!HasPriv(sptr, PRIV_GLINE))
+    else if (!HasPriv(sptr, PRIV_GLINE) ||
+	     ((*mask == '#' || *mask == '&') && !HasPriv(sptr, PRIV_BADCHAN)))
       return send_reply(sptr, ERR_NOPRIVILEGES);
   }
 
-- 
2.43.0


From c7f5d6fb938eed08ba5601c0b9e1b4240be72760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:44 +0000
Subject: [PATCH 14/54] fix: a local JUPE needs the local_jupe privilege

---
 ircd/m_jupe.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/m_jupe.c b/ircd/m_jupe.c
index 51f219f..da83b84 100644
--- a/ircd/m_jupe.c
+++ b/ircd/m_jupe.c
@@ -239,7 +239,8 @@ int mo_jupe(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
       flags |= JUPE_LOCAL;
     } else if (!HasPriv(sptr, PRIV_JUPE))
       return send_reply(sptr, ERR_NOPRIVILEGES);
-  }
+  } else if (!HasPriv(sptr, PRIV_LOCAL_JUPE))
+    return send_reply(sptr, ERR_NOPRIVILEGES);
 
   ajupe = jupe_find(server);
 
-- 
2.43.0


From 5e95a34fbb92d5d0e68a7832f1dd97ac8207d4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:44 +0000
Subject: [PATCH 15/54] fix: JUPE + activates an inactive local jupe

---
 ircd/jupe.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ircd/jupe.c b/ircd/jupe.c
index 243ae62..a94cab1 100644
--- a/ircd/jupe.c
+++ b/ircd/jupe.c
@@ -193,7 +193,9 @@ jupe_activate(struct Client *cptr, struct Client *sptr, struct Jupe *jupe,
 
   saveflags = jupe->ju_flags;
 
-  if (flags & JUPE_LOCAL)
+  if (JupeIsLocal(jupe))
+    jupe->ju_flags |= JUPE_ACTIVE;
+  else if (flags & JUPE_LOCAL)
     jupe->ju_flags &= ~JUPE_LDEACT;
   else {
     jupe->ju_flags |= JUPE_ACTIVE;
-- 
2.43.0


From d6f8251b0834cffabba5662a2a273a885b7af425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:21 +0000
Subject: [PATCH 16/54] fix: bans kept when an older channel's burst arrives
 are passed on to the servers behind

---
 ircd/m_burst.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/ircd/m_burst.c b/ircd/m_burst.c
index 03a9b8d..99e7d97 100644
--- a/ircd/m_burst.c
+++ b/ircd/m_burst.c
@@ -382,12 +382,13 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 
     case '%': /* parameter contains bans */
       if (parse_flags & MODE_PARSE_SET) {
-	char *banlist = parv[param] + 1, *p = 0, *ban, *ptr;
+	char *banlist = parv[param] + 1, *p = 0, *ban;
+	const char *sendban;
 	struct Ban *newban;
 
 	for (ban = ircd_strtok(&p, banlist, " "); ban;
 	     ban = ircd_strtok(&p, 0, " ")) {
-	  ban = collapse(pretty_mask(ban));
+	  sendban = ban = collapse(pretty_mask(ban));
 
 	    /*
 	     * Yeah, we should probably do this elsewhere, and make it better
@@ -399,12 +400,17 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 	     */
 	  for (lp = chptr->banlist; lp; lp = lp->next) {
 	    if (!ircd_strcmp(lp->banstr, ban)) {
+	      /* servers behind us are wiping out this ban as well, so
+	       * they need to hear that it is kept; otherwise don't even
+	       * repropagate */
+	      if (!(lp->flags & BAN_BURST_WIPEOUT))
+	        sendban = 0;
 	      ban = 0; /* don't add ban */
 	      lp->flags &= ~BAN_BURST_WIPEOUT; /* not wiping out */
-	      break; /* new ban already existed; don't even repropagate */
+	      break; /* new ban already existed */
 	    } else if (!(lp->flags & BAN_BURST_WIPEOUT) &&
 		       !mmatch(lp->banstr, ban)) {
-	      ban = 0; /* don't add ban unless wiping out bans */
+	      sendban = ban = 0; /* don't add ban unless wiping out bans */
 	      break; /* new ban is encompassed by an existing one; drop */
 	    } else if (!mmatch(ban, lp->banstr))
 	      lp->flags |= BAN_OVERLAPPED; /* remove overlapping ban */
@@ -413,7 +419,7 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 	      break;
 	  }
 
-	  if (ban) { /* add the new ban to the end of the list */
+	  if (sendban) {
 	    /* Build ban buffer */
 	    if (!banpos) {
 	      banstr[banpos++] = ' ';
@@ -421,9 +427,11 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 	      banstr[banpos++] = '%';
 	    } else
 	      banstr[banpos++] = ' ';
-	    for (ptr = ban; *ptr; ptr++) /* add ban to buffer */
-	      banstr[banpos++] = *ptr;
+	    for (; *sendban; sendban++) /* add ban to buffer */
+	      banstr[banpos++] = *sendban;
+	  }
 
+	  if (ban) { /* add the new ban to the end of the list */
 	    newban = make_ban(ban); /* create new ban */
             strcpy(newban->who, "*");
 	    newban->when = TStime();
-- 
2.43.0


From 8374a8c67bf1bac135fe5564ec7623590e8b5209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:07 +0000
Subject: [PATCH 17/54] fix: servers merging a channel that is secret on one
 side and private on the other agree

---
 ircd/channel.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ircd/channel.c b/ircd/channel.c
index d4ecda8..632dac2 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -3337,6 +3337,11 @@ mode_parse_mode(struct ParseState *state, int *flag_p)
       MyUser(state->sptr))
     return;
 
+  /* If the two sides of a burst disagree, +s wins over +p on both */
+  if (flag_p[0] == MODE_PRIVATE && (state->flags & MODE_PARSE_BURST) &&
+      (state->chptr->mode.mode & MODE_SECRET))
+    return;
+
   if (state->dir == MODE_ADD) {
     state->add |= flag_p[0];
     state->del &= ~flag_p[0];
-- 
2.43.0


From ecfeb5c4434e5ea5696250d9d1545ab540d9dded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:07 +0000
Subject: [PATCH 18/54] fix: clearing a channel's key on a JOIN with an older
 timestamp shows the key in the MODE

---
 ircd/m_join.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/ircd/m_join.c b/ircd/m_join.c
index 7a925e6..164e530 100644
--- a/ircd/m_join.c
+++ b/ircd/m_join.c
@@ -420,20 +420,14 @@ int ms_join(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
           chptr->mode.limit = 0;
         }
 
-        if (chptr->mode.key[0]) {
+        if (chptr->mode.key[0])
           modebuf_mode_string(&mbuf, MODE_DEL | MODE_KEY, chptr->mode.key, 0);
-          chptr->mode.key[0] = '\0';
-        }
 
-        if (chptr->mode.upass[0]) {
+        if (chptr->mode.upass[0])
           modebuf_mode_string(&mbuf, MODE_DEL | MODE_UPASS, chptr->mode.upass, 0);
-          chptr->mode.upass[0] = '\0';
-        }
 
-        if (chptr->mode.apass[0]) {
+        if (chptr->mode.apass[0])
           modebuf_mode_string(&mbuf, MODE_DEL | MODE_APASS, chptr->mode.apass, 0);
-          chptr->mode.apass[0] = '\0';
-        }
 
         for (member = chptr->members; member; member = member->next_member)
         {
@@ -447,6 +441,11 @@ int ms_join(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
           }
         }
         modebuf_flush(&mbuf);
+
+        /* The mode buffer referred to these, so clear them only now */
+        chptr->mode.key[0] = '\0';
+        chptr->mode.upass[0] = '\0';
+        chptr->mode.apass[0] = '\0';
       }
     }
 
-- 
2.43.0


From 98733be5ed83dc2d5ce46f44be8bfaaebcf1e338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:47 +0000
Subject: [PATCH 19/54] fix: TAGMSG is not sent to clients without the
 message-tags capability

---
 ircd/send.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ircd/send.c b/ircd/send.c
index 4d322ac..43b4bca 100644
--- a/ircd/send.c
+++ b/ircd/send.c
@@ -263,6 +263,7 @@ struct MsgTagCtx {
   time_t         local_time;  /**< Delivery time for server-time / @time=. */
   int            client_relay;   /**< Has relayable client-only (+) tags. */
   int            s2s_needs_time; /**< Invent/forward @time= on S2S for this command. */
+  int            needs_cap;      /**< Only for clients with message-tags (TAGMSG). */
 };
 
 /** Per-fan-out prefix cache: amortizes prefix formatting across many local
@@ -285,6 +286,7 @@ msgtagctx_init(struct MsgTagCtx *ctx, const char *tok)
   ctx->local_time = CurrentTime;
   ctx->client_relay = msg_tag_have_client_relay(ctx->tags);
   ctx->s2s_needs_time = tok ? msg_tag_s2s_needs_time(tok) : 0;
+  ctx->needs_cap = tok && !strcmp(tok, TOK_TAGMSG);
 }
 
 static void
@@ -357,6 +359,11 @@ void send_buffer(struct Client* to, struct Client* from, struct MsgBuf* buf, int
      */
     return;
 
+  /* Clients without the message-tags capability must not see TAGMSG. */
+  if (tctx && tctx->needs_cap && !IsServer(to)
+      && !CapHas(cli_active(to), CAP_MESSAGE_TAGS))
+    return;
+
   if (MsgQLength(&(cli_sendQ(to))) > get_sendq(to)) {
     if (IsServer(to))
       sendto_opmask_butone(0, SNO_OLDSNO, "Max SendQ limit exceeded for %C: "
-- 
2.43.0


From 28ce7f5897ce1f92e16a06725e6c5789b24ff71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:47 +0000
Subject: [PATCH 20/54] fix: tags of a handled line are not attached to lines
 sent later

---
 ircd/parse.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/ircd/parse.c b/ircd/parse.c
index 8fd4472..5e8b5e2 100644
--- a/ircd/parse.c
+++ b/ircd/parse.c
@@ -889,8 +889,8 @@ int unregister_mapping(struct s_map *map)
  * @return 0 on success, -1 on parse error, or CPTR_KILLED if message
  * handler returns it.
  */
-int
-parse_client(struct Client *cptr, char *buffer, char *bufend)
+static int
+parse_client_line(struct Client *cptr, char *buffer, char *bufend)
 {
   struct Client*  from = cptr;
   char*           ch;
@@ -1055,7 +1055,8 @@ parse_client(struct Client *cptr, char *buffer, char *bufend)
  * @return 0 on success, -1 on parse error, or CPTR_KILLED if message
  * handler returns it.
  */
-int parse_server(struct Client *cptr, char *buffer, char *bufend)
+static int
+parse_server_line(struct Client *cptr, char *buffer, char *bufend)
 {
   struct Client*  from = cptr;
   char*           ch = buffer;
@@ -1355,3 +1356,26 @@ int parse_server(struct Client *cptr, char *buffer, char *bufend)
 
   return (*mptr->handlers[cli_handler(cptr)]) (cptr, from, i, para);
 }
+
+/** Parse a line of data from a user; see parse_client_line().
+ * The line's tags are only valid while it is being handled: whatever is
+ * sent later (from timers, other connections) must not carry them.
+ */
+int
+parse_client(struct Client *cptr, char *buffer, char *bufend)
+{
+  int res = parse_client_line(cptr, buffer, bufend);
+
+  current_tags = NULL;
+  return res;
+}
+
+/** Parse a line of data from a server; see parse_server_line(). */
+int
+parse_server(struct Client *cptr, char *buffer, char *bufend)
+{
+  int res = parse_server_line(cptr, buffer, bufend);
+
+  current_tags = NULL;
+  return res;
+}
-- 
2.43.0


From c73f8bc0392e061a40bc870540d3beb39500c684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:47 +0000
Subject: [PATCH 21/54] fix: TAGMSG honours user mode +R like PRIVMSG and
 NOTICE

---
 ircd/ircd_relay.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ircd/ircd_relay.c b/ircd/ircd_relay.c
index 57f02b0..dbdb68d 100644
--- a/ircd/ircd_relay.c
+++ b/ircd/ircd_relay.c
@@ -842,9 +842,15 @@ relay_private_tagmsg(struct Client *sptr, const char *name)
     send_reply(sptr, ERR_NOSUCHNICK, name);
     return;
   }
-  if ((!IsChannelService(acptr) &&
-       check_target_limit(sptr, acptr, NULL)) ||
-      is_silenced(sptr, acptr))
+  if (!IsChannelService(acptr) && check_target_limit(sptr, acptr, NULL))
+    return;
+
+  if (should_block_unauth_user(sptr, acptr)) {
+    send_reply_blocked_unauth_user(sptr, acptr);
+    return;
+  }
+
+  if (is_silenced(sptr, acptr))
     return;
 
   if (sline_check_privmsg(sptr, acptr, "", MSG_PRIVATE))
@@ -974,6 +980,11 @@ server_relay_private_tagmsg(struct Client *sptr, const char *name)
   if (0 == (acptr = findNUser(name)) || !IsUser(acptr))
     return;
 
+  if (should_block_unauth_user(sptr, acptr)) {
+    send_reply_blocked_unauth_user(sptr, acptr);
+    return;
+  }
+
   if (is_silenced(sptr, acptr))
     return;
 
-- 
2.43.0


From b27579c52047244f9746797a9c65f469f3d8a566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:47 +0000
Subject: [PATCH 22/54] fix: CAP REQ with an empty list does not acknowledge
 every capability

---
 ircd/m_cap.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ircd/m_cap.c b/ircd/m_cap.c
index 07428d0..4a597b0 100644
--- a/ircd/m_cap.c
+++ b/ircd/m_cap.c
@@ -201,8 +201,9 @@ send_caplist(struct Client *sptr, capset_t set,
   for (i = 0, loc = 0; i < CAPAB_LIST_LEN; i++) {
     flags = capab_list[i].flags;
 
-    /* If the client has no capabilities set, and this is the LIST subcmd, break. */
-    if (!set && !strcmp(subcmd, "LIST"))
+    /* If there are no capabilities to show (and this is not the LS subcmd,
+     * which shows all that are available), break. */
+    if (!set && !rem && strcmp(subcmd, "LS"))
       break;
 
     /* Check if the capability is enabled in features() */
-- 
2.43.0


From 457d5e85847ad82378d63bb18c3b74609c2bbcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:47 +0000
Subject: [PATCH 23/54] fix: away-notify clients hear about remote users in
 their channels going away

---
 ircd/m_away.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ircd/m_away.c b/ircd/m_away.c
index a4a7865..48aa5e8 100644
--- a/ircd/m_away.c
+++ b/ircd/m_away.c
@@ -187,6 +187,7 @@ int m_away(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
 int ms_away(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
 {
   char* away_message = parv[1];
+  int was_away;
 
   assert(0 != cptr);
   assert(0 != sptr);
@@ -196,10 +197,19 @@ int ms_away(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   if (IsServer(sptr))
     return protocol_violation(sptr,"Server trying to set itself away");
 
+  was_away = cli_user(sptr)->away != 0;
+
   if (user_set_away(cli_user(sptr), away_message))
+  {
     sendcmdto_serv_butone(sptr, CMD_AWAY, cptr, ":%s", away_message);
+    if (!was_away)
+      sendcmdto_capflag_common_channels_butone(sptr, CMD_AWAY, cptr, CAP_AWAYNOTIFY, 0, ":%s", away_message);
+  }
   else
+  {
     sendcmdto_serv_butone(sptr, CMD_AWAY, cptr, "");
+    sendcmdto_capflag_common_channels_butone(sptr, CMD_AWAY, cptr, CAP_AWAYNOTIFY, 0, "");
+  }
   return 0;
 }
 
-- 
2.43.0


From bbfd30fa9a93be2aecd82c440a4d4b759f137108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:00 +0000
Subject: [PATCH 24/54] fix: TAGMSG is refused from clients without the
 message-tags capability

---
 ircd/m_tagmsg.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ircd/m_tagmsg.c b/ircd/m_tagmsg.c
index 2ad177a..f35f286 100644
--- a/ircd/m_tagmsg.c
+++ b/ircd/m_tagmsg.c
@@ -30,8 +30,10 @@
 static int
 tagmsg_check_cap(struct Client *sptr)
 {
-  if (!CapHas(cli_active(sptr), CAP_MESSAGE_TAGS))
-    return send_reply(sptr, ERR_UNKNOWNCOMMAND, MSG_TAGMSG);
+  if (!CapHas(cli_active(sptr), CAP_MESSAGE_TAGS)) {
+    send_reply(sptr, ERR_UNKNOWNCOMMAND, MSG_TAGMSG);
+    return 1;
+  }
   return 0;
 }
 
-- 
2.43.0


From 55a7407bc891eb2e09d25e1b85d1b564711e0485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:20 +0000
Subject: [PATCH 25/54] fix: a connection class holds as many clients as its
 maxlinks says

The class's own reference was counted as a client, so a class of N admitted N - 1.
---
 ircd/s_conf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/s_conf.c b/ircd/s_conf.c
index e30651e..c014f33 100644
--- a/ircd/s_conf.c
+++ b/ircd/s_conf.c
@@ -672,8 +672,9 @@ enum AuthorizationCheckResult attach_conf(struct Client *cptr, struct ConfItem *
     return ACR_ALREADY_AUTHORIZED;
   if (IsIllegal(aconf))
     return ACR_NO_AUTHORIZATION;
+  /* A class holds one reference to itself, so it has ConfLinks() - 1 users. */
   if ((aconf->status & (CONF_OPERATOR | CONF_CLIENT)) &&
-      ConfLinks(aconf) >= ConfMaxLinks(aconf) && ConfMaxLinks(aconf) > 0)
+      ConfLinks(aconf) > ConfMaxLinks(aconf) && ConfMaxLinks(aconf) > 0)
     return ACR_TOO_MANY_IN_CLASS;  /* Use this for printing error message */
   lp = make_link();
   lp->next = cli_confs(cptr);
-- 
2.43.0


From 396e35a1c208c1ac6b014ac40c4056d9601c834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:33 +0000
Subject: [PATCH 26/54] fix: connections exempt from IPcheck do not count
 against others when they leave

An exempt client was marked as counted without being counted, so its exit
decremented (or underflowed, or hit the assertion on) the entry of another
client of the same network, or of the same address after a rehash.
---
 ircd/IPcheck.c   | 23 +++++++++++++----------
 ircd/s_auth.c    |  7 +++++--
 ircd/s_bsd.c     |  7 +++++--
 ircd/websocket.c |  7 +++++--
 4 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/ircd/IPcheck.c b/ircd/IPcheck.c
index a81246d..b770edc 100644
--- a/ircd/IPcheck.c
+++ b/ircd/IPcheck.c
@@ -433,7 +433,8 @@ static int ip_registry_is_exempt(const struct irc_in_addr *addr)
  * separated by no more than IPCHECK_CLONE_PERIOD seconds.
  * @param[in] addr Address of client.
  * @param[out] next_target_out Receives time to grant another free target.
- * @return Non-zero if the connection is permitted, zero if denied.
+ * @return Positive if the connection is permitted and was counted, negative
+ *   if it is exempt (permitted but not counted), zero if denied.
  */
 static int ip_registry_check_local(const struct irc_in_addr *addr, time_t* next_target_out)
 {
@@ -441,7 +442,7 @@ static int ip_registry_check_local(const struct irc_in_addr *addr, time_t* next_
   unsigned int free_targets = STARTTARGETS;
 
   if (ip_registry_is_exempt(addr)) {
-    return 1;
+    return -1;
   }
 
   entry = ip_registry_find(addr);
@@ -535,10 +536,6 @@ static int ip_registry_check_remote(struct Client* cptr, int is_burst)
 {
   struct IPRegistryEntry* entry;
 
-  /*
-   * Mark that we did add/update an IPregistry entry
-   */
-  SetIPChecked(cptr);
   if (!irc_in_addr_valid(&cli_ip(cptr))) {
     Debug((DEBUG_DNS, "IPcheck accepting remote connection from invalid %s.", ircd_ntoa(&cli_ip(cptr))));
     return 1;
@@ -548,6 +545,11 @@ static int ip_registry_check_remote(struct Client* cptr, int is_burst)
     return 1;
   }
 
+  /*
+   * Mark that we did add/update an IPregistry entry
+   */
+  SetIPChecked(cptr);
+
   if (!irc_in_addr_is_ipv4(&cli_ip(cptr))) {
     struct IPRegistry48* entry_48 = ip_48_find(&cli_ip(cptr));
     if (CONNECTED_SINCE(entry_48->last_connect) > IPCHECK_48_CLONE_PERIOD)
@@ -732,7 +734,9 @@ static int ip_registry_count(const struct irc_in_addr *addr)
 /** Check whether a client is allowed to connect locally.
  * @param[in] a Address of client.
  * @param[out] next_target_out Receives time to grant another free target.
- * @return Non-zero if the connection is permitted, zero if denied.
+ * @return Positive if the connection is permitted and was counted (the
+ *   caller must set FLAG_IPCHECK), negative if it is permitted but exempt
+ *   (the caller must not), zero if denied.
  */
 int IPcheck_local_connect(const struct irc_in_addr *a, time_t* next_target_out)
 {
@@ -760,8 +764,8 @@ int IPcheck_remote_connect(struct Client *cptr, int is_burst)
  */
 void IPcheck_connect_fail(const struct Client *cptr, int disconnect)
 {
-  assert(IsIPChecked(cptr));
-  ip_registry_connect_fail(&cli_ip(cptr), disconnect);
+  if (IsIPChecked(cptr))
+    ip_registry_connect_fail(&cli_ip(cptr), disconnect);
 }
 
 /** Handle a client that has successfully connected.
@@ -773,7 +777,6 @@ void IPcheck_connect_fail(const struct Client *cptr, int disconnect)
 void IPcheck_connect_succeeded(struct Client *cptr)
 {
   assert(0 != cptr);
-  assert(IsIPChecked(cptr));
   ip_registry_connect_succeeded(cptr);
 }
 
diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index 4f17fe0..ef97e5f 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -1473,16 +1473,19 @@ int auth_spoof_user(struct AuthRequest *auth, const char *username, const char *
 {
   struct Client *sptr = auth->client;
   time_t next_target = 0;
+  int counted;
 
   if (!auth_verify_hostname(hostname, HOSTLEN))
     return 1;
   if (!ipmask_parse(ip, &cli_ip(sptr), NULL))
     return 2;
-  if (!IPcheck_local_connect(&cli_ip(sptr), &next_target)) {
+  counted = IPcheck_local_connect(&cli_ip(sptr), &next_target);
+  if (!counted) {
     ++ServerStats->is_throttled;
     return exit_client(sptr, sptr, &me, "Your host is trying to (re)connect too fast -- throttled");
   }
-  SetIPChecked(sptr);
+  if (counted > 0)
+    SetIPChecked(sptr);
 
   if (next_target)
     cli_nexttarget(sptr) = next_target;
diff --git a/ircd/s_bsd.c b/ircd/s_bsd.c
index 5e8aeb7..0493fab 100644
--- a/ircd/s_bsd.c
+++ b/ircd/s_bsd.c
@@ -579,14 +579,17 @@ void add_connection(struct Listener* listener, int fd) {
      * known at handshake; the socket peer is a Cloudflare edge node.
      */
     if (!(listener_websocket(listener) && listener_cloudflare(listener))) {
-      if (!IPcheck_local_connect(&addr.addr, &next_target))
+      int counted = IPcheck_local_connect(&addr.addr, &next_target);
+
+      if (!counted)
       {
         ++ServerStats->is_throttled;
         write(fd, throttle_message, strlen(throttle_message));
         close(fd);
         return;
       }
-      SetIPChecked(new_client);
+      if (counted > 0)
+        SetIPChecked(new_client);
     }
   }
 
diff --git a/ircd/websocket.c b/ircd/websocket.c
index 02af85b..09d0704 100644
--- a/ircd/websocket.c
+++ b/ircd/websocket.c
@@ -161,6 +161,7 @@ static int websocket_apply_client_ip(struct Client *cptr, const char *ip)
 {
   struct irc_in_addr addr;
   time_t next_target = 0;
+  int counted;
 
   if (!ip || !*ip || !ipmask_parse(ip, &addr, NULL))
     return 0;
@@ -168,11 +169,13 @@ static int websocket_apply_client_ip(struct Client *cptr, const char *ip)
   if (IsIPChecked(cptr))
     IPcheck_connect_fail(cptr, 0);
 
-  if (!IPcheck_local_connect(&addr, &next_target)) {
+  counted = IPcheck_local_connect(&addr, &next_target);
+  if (!counted) {
     ++ServerStats->is_throttled;
     return 0;
   }
-  SetIPChecked(cptr);
+  if (counted > 0)
+    SetIPChecked(cptr);
 
   memcpy(&cli_ip(cptr), &addr, sizeof(cli_ip(cptr)));
   ircd_ntoa_r(cli_sock_ip(cptr), &cli_ip(cptr));
-- 
2.43.0


From 128bee7069306ff75a4531f2648861dedd05d051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:10 +0000
Subject: [PATCH 27/54] fix: IPcheck attempt counts expire when 16 bits of the
 time wrap

Differences of 16-bit times went negative after each multiple of 65536
seconds, so an entry of a connected address was never reset and addresses
were refused (or entries kept) for up to 18 hours.
---
 ircd/IPcheck.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ircd/IPcheck.c b/ircd/IPcheck.c
index b770edc..10414ad 100644
--- a/ircd/IPcheck.c
+++ b/ircd/IPcheck.c
@@ -52,7 +52,7 @@ struct IPRegistryEntry {
   struct IPRegistryEntry*  next;   /**< Next entry in the hash chain. */
   struct IPTargetEntry*    target; /**< Recent targets, if any. */
   struct irc_in_addr       addr;   /**< IP address for this user. */
-  int		           last_connect; /**< Last connection attempt timestamp. */
+  time_t                   last_connect; /**< Last connection attempt timestamp. */
   unsigned short           connected; /**< Number of currently connected clients. */
   unsigned char            attempts; /**< Number of recent connection attempts. */
 };
@@ -60,7 +60,7 @@ struct IPRegistryEntry {
 /** Stores information about an IPv6/48 block's recent connections. */
 struct IPRegistry48 {
   struct IPRegistry48* next;     /**< Next entry in the hash chain. */
-  int              last_connect; /**< Last connection attempt timestamp. */
+  time_t               last_connect; /**< Last connection attempt timestamp. */
   uint16_t             addr[3];  /**< 48 MSBs of IP address. */
   unsigned short       attempts; /**< Number of recent connection attempts. */
 };
@@ -68,7 +68,7 @@ struct IPRegistry48 {
 /** Size of hash table (must be a power of two). */
 #define IP_REGISTRY_TABLE_SIZE 0x10000
 /** Report current time for tracking in IPRegistryEntry::last_connect. */
-#define NOW ((unsigned short)(CurrentTime & 0xffff))
+#define NOW (CurrentTime)
 /** Time from \a x until now, in seconds. */
 #define CONNECTED_SINCE(x) (NOW - (x))
 
-- 
2.43.0


From 24ff65b7aa8e46a58364d52c6b5f69c46bb71f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:27 +0000
Subject: [PATCH 28/54] fix: a rehash drops IPCheck exemptions that left the
 configuration

The list was only cleared by the next IPCheck block, so removing the last
block kept its exemptions, and a second block dropped those of the first.
---
 ircd/ircd_parser.y | 1 -
 ircd/s_conf.c      | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/ircd/ircd_parser.y b/ircd/ircd_parser.y
index 1c5491e..4ad250b 100644
--- a/ircd/ircd_parser.y
+++ b/ircd/ircd_parser.y
@@ -1468,7 +1468,6 @@ webirchidden: HIDDEN '=' YES ';' { flags = flags | 1; }
 ipcheckblock: IPCHECK
 {
   if (!permitted(BLOCK_IPCHECK)) YYERROR;
-  IPcheck_clear_config();
 }
 '{' ipcheckitems '}' ';';
 
diff --git a/ircd/s_conf.c b/ircd/s_conf.c
index c014f33..7644c05 100644
--- a/ircd/s_conf.c
+++ b/ircd/s_conf.c
@@ -1121,6 +1121,7 @@ int rehash(struct Client *cptr, int sig)
   clearNickJupes();
 
   clear_quarantines();
+  IPcheck_clear_config();
 
   class_mark_delete();
   mark_listeners_closing();
-- 
2.43.0


From 5edef2e42c8cce0e9802ea3e32e4fc6003aba2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:21 +0000
Subject: [PATCH 29/54] fix: a Connect block outlives a rehash while its link
 is still being set up

---
 ircd/s_conf.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ircd/s_conf.c b/ircd/s_conf.c
index 7644c05..1de231e 100644
--- a/ircd/s_conf.c
+++ b/ircd/s_conf.c
@@ -1326,6 +1326,7 @@ int conf_check_server(struct Client *cptr)
 {
   struct ConfItem* c_conf = NULL;
   struct SLink*    lp;
+  struct SLink*    next;
 
   Debug((DEBUG_DNS, "sv_cl: check access for %s[%s]", 
         cli_name(cptr), cli_sockhost(cptr)));
@@ -1363,9 +1364,14 @@ int conf_check_server(struct Client *cptr)
   if (!c_conf)
     c_conf = find_conf_byip(lp, &cli_ip(cptr), CONF_SERVER);
   /*
-   * detach all conf lines that got attached by attach_confs()
+   * detach all conf lines that got attached by attach_confs(), except
+   * the one to keep: after a rehash ours may be its last reference
    */
-  det_confs_butmask(cptr, 0);
+  for (lp = cli_confs(cptr); lp; lp = next) {
+    next = lp->next;
+    if (lp->value.aconf != c_conf)
+      detach_conf(cptr, lp->value.aconf);
+  }
   /*
    * if no Connect block, then deny access
    */
-- 
2.43.0


From d4f5a3aa4eb5e417225e75d14e02dfd0338a6cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:11 +0000
Subject: [PATCH 30/54] fix: a throttled connection does not leak its client
 and TLS session

---
 ircd/s_bsd.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ircd/s_bsd.c b/ircd/s_bsd.c
index 0493fab..c82350f 100644
--- a/ircd/s_bsd.c
+++ b/ircd/s_bsd.c
@@ -585,7 +585,10 @@ void add_connection(struct Listener* listener, int fd) {
       {
         ++ServerStats->is_throttled;
         write(fd, throttle_message, strlen(throttle_message));
+        if (tls)
+          ircd_tls_close(tls, NULL);
         close(fd);
+        free_client(new_client);
         return;
       }
       if (counted > 0)
@@ -609,8 +612,13 @@ void add_connection(struct Listener* listener, int fd) {
 		  (void*) cli_connect(new_client), SS_CONNECTED, 0, fd)) {
     ++ServerStats->is_bad_socket;
     write(fd, register_message, strlen(register_message));
+    if (tls)
+      ircd_tls_close(tls, NULL);
     close(fd);
     cli_fd(new_client) = -1;
+    if (IsIPChecked(new_client))
+      IPcheck_disconnect(new_client);
+    free_client(new_client);
     return;
   }
   cli_freeflag(new_client) |= FREEFLAG_SOCKET;
-- 
2.43.0


From 64b7d6ff65a4c169eb4f9accfd1bb1f40027b25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:52 +0000
Subject: [PATCH 31/54] fix: clear a local operator's flag when a service makes
 it an operator

OPMODE +o on a LocOp set FLAG_OPER beside FLAG_LOCOP and detached the
Operator block; a later -o cleared only FLAG_OPER and the privileges, so
the user stayed a local operator in every IsAnOper() check.
---
 ircd/m_opmode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ircd/m_opmode.c b/ircd/m_opmode.c
index 609c8cf..30af133 100644
--- a/ircd/m_opmode.c
+++ b/ircd/m_opmode.c
@@ -109,6 +109,10 @@ static void make_oper(struct Client *sptr, struct Client *dptr)
 
   if (MyConnect(dptr))
   {
+    /* A local operator becomes a global one, as by m_oper(); he must not
+     * be left a local operator without a handler or privileges by a
+     * later -o. */
+    ClearLocOp(dptr);
     cli_handler(dptr) = OPER_HANDLER;
     SetWallops(dptr);
     SetDebug(dptr);
-- 
2.43.0


From 136fe648b54b39e8bd3a89dd9a1c67e71558d005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:53 +0000
Subject: [PATCH 32/54] fix: an operator's change to a G-line within a second
 of another was ignored

---
 ircd/m_gline.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ircd/m_gline.c b/ircd/m_gline.c
index 88db0c8..b3e2f14 100644
--- a/ircd/m_gline.c
+++ b/ircd/m_gline.c
@@ -97,6 +97,7 @@
 #include "s_debug.h"
 #include "s_misc.h"
 #include "send.h"
+#include "sys.h"
 
 /* #include <assert.h> -- Now using assert in ircd_log.h */
 #include <stdlib.h>
@@ -629,9 +630,9 @@ mo_gline(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 	 flags & GLINE_EXPIRE ? "expire" : "",
 	 flags & GLINE_REASON ? "reason" : ""));
 
-  if (agline) /* modifying an existing G-line */
+  if (agline) /* modifying an existing G-line; force lastmod to increase */
     return gline_modify(cptr, sptr, agline, action, reason, expire,
-			TStime(), 0, flags);
+			IRCD_MAX(TStime(), GlineLastMod(agline) + 1), 0, flags);
 
   assert(action != GLINE_LOCAL_ACTIVATE);
   assert(action != GLINE_LOCAL_DEACTIVATE);
-- 
2.43.0


From 98fa6ecf3e80056c83716138bd0c24af42a92652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:53 +0000
Subject: [PATCH 33/54] fix: jupe commands that change nothing made a server
 ignore others' changes

---
 ircd/jupe.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ircd/jupe.c b/ircd/jupe.c
index a94cab1..b48c199 100644
--- a/ircd/jupe.c
+++ b/ircd/jupe.c
@@ -200,7 +200,9 @@ jupe_activate(struct Client *cptr, struct Client *sptr, struct Jupe *jupe,
   else {
     jupe->ju_flags |= JUPE_ACTIVE;
 
-    if (jupe->ju_lastmod >= lastmod) /* force lastmod to increase */
+    if ((saveflags & JUPE_ACTMASK) == JUPE_ACTIVE && !IsServer(cptr))
+      ; /* not a change, and other servers will not be told */
+    else if (jupe->ju_lastmod >= lastmod) /* force lastmod to increase */
       jupe->ju_lastmod++;
     else
       jupe->ju_lastmod = lastmod;
@@ -252,7 +254,9 @@ jupe_deactivate(struct Client *cptr, struct Client *sptr, struct Jupe *jupe,
     else {
       jupe->ju_flags &= ~JUPE_ACTIVE;
 
-      if (jupe->ju_lastmod >= lastmod) /* force lastmod to increase */
+      if (!(saveflags & JUPE_ACTIVE) && !IsServer(cptr))
+	; /* not a change, and other servers will not be told */
+      else if (jupe->ju_lastmod >= lastmod) /* force lastmod to increase */
 	jupe->ju_lastmod++;
       else
 	jupe->ju_lastmod = lastmod;
-- 
2.43.0


From 6197641b6395fe23bffff57f79db98b52e8a40ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:53 +0000
Subject: [PATCH 34/54] fix: tell other servers when a jupe deactivated locally
 is deactivated globally

---
 ircd/jupe.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/jupe.c b/ircd/jupe.c
index b48c199..59ae8ca 100644
--- a/ircd/jupe.c
+++ b/ircd/jupe.c
@@ -262,7 +262,8 @@ jupe_deactivate(struct Client *cptr, struct Client *sptr, struct Jupe *jupe,
 	jupe->ju_lastmod = lastmod;
     }
 
-    if ((saveflags & JUPE_ACTMASK) != JUPE_ACTIVE)
+    if ((flags & JUPE_LOCAL) ? (saveflags & JUPE_ACTMASK) != JUPE_ACTIVE :
+	!(saveflags & JUPE_ACTIVE))
       return 0; /* was inactive to begin with */
   }
 
-- 
2.43.0


From 5513931f74cc261b5bf24a521f9738b4aca81e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:21 +0000
Subject: [PATCH 35/54] fix: do not time out connections that were never pinged

---
 ircd/ircd.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ircd/ircd.c b/ircd/ircd.c
index ef6a577..a42e224 100644
--- a/ircd/ircd.c
+++ b/ircd/ircd.c
@@ -385,6 +385,10 @@ static void check_pings(struct Event* ev) {
 
     max_ping = client_get_ping(cptr);
 
+    /* If we're late in noticing don't hold it against them :) */
+    if (!IsPingSent(cptr) && CurrentTime - cli_lasttime(cptr) > max_ping)
+      cli_lasttime(cptr) = CurrentTime - max_ping;
+
     /* RFC6455 WebSocket Ping keepalive (not IRC PING); interval from features */
     if (MyConnect(cptr) && IsWebsocket(cptr) && IsRegistered(cptr)) {
       int ws_ka = feature_int(FEAT_WEBSOCKET_KEEPALIVE);
@@ -461,9 +465,6 @@ static void check_pings(struct Event* ev) {
        * while, PING it to make sure it is still alive.
        */
       SetPingSent(cptr);
-
-      /* If we're late in noticing don't hold it against them :) */
-      cli_lasttime(cptr) = CurrentTime - max_ping;
       
       if (IsUser(cptr))
         sendrawto_one(cptr, MSG_PING " :%s", cli_name(&me));
-- 
2.43.0


From 94bc01c427ee209068fa44c84e20a355f8040970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:45 +0000
Subject: [PATCH 36/54] fix: do not busy-loop on the socket of a dead
 connection

---
 ircd/send.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ircd/send.c b/ircd/send.c
index 43b4bca..770d9e6 100644
--- a/ircd/send.c
+++ b/ircd/send.c
@@ -92,6 +92,12 @@ static void dead_link(struct Client *to, char *notice)
   MsgQClear(&(cli_sendQ(to)));
   client_drop_sendq(cli_connect(to));
 
+  /*
+   * Nothing more will be read from or written to this connection before
+   * check_pings() removes it, so a ready socket must not keep waking us.
+   */
+  socket_events(&(cli_socket(to)), SOCK_ACTION_SET);
+
   /*
    * Keep a copy of the last comment, for later use...
    */
-- 
2.43.0


From df2d1999a5ccd6f79c59cce856ccd7ce9c20dccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:43 +0000
Subject: [PATCH 37/54] fix: connection classes without limits of their own
 froze the defaults of the moment they were read

---
 ircd/class.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/ircd/class.c b/ircd/class.c
index 927cc88..fa00f01 100644
--- a/ircd/class.c
+++ b/ircd/class.c
@@ -104,8 +104,8 @@ void init_class(void)
   ConClass(connClassList) = "default";
   PingFreq(connClassList) = feature_int(FEAT_PINGFREQUENCY);
   ConFreq(connClassList)  = feature_int(FEAT_CONNECTFREQUENCY);
-  MaxSendq(connClassList) = feature_int(FEAT_DEFAULTMAXSENDQLENGTH);
-  MaxFlood(connClassList) = feature_int(FEAT_CLIENT_FLOOD);
+  MaxSendq(connClassList) = 0;
+  MaxFlood(connClassList) = 0;
   MaxLinks(connClassList) = 1;
   connClassList->valid    = 1;
   Links(connClassList)    = 1;
@@ -209,9 +209,10 @@ get_client_class(struct Client *acptr)
  * @param[in] name Connection class name.
  * @param[in] ping Ping frequency for clients in this class.
  * @param[in] confreq Connection frequency for clients.
- * @param[in] maxfl Max flood for clients.
+ * @param[in] maxfl Max flood for clients (0 for the CLIENT_FLOOD feature,
+ *   looked up when needed since it may be set or changed later).
  * @param[in] maxli Maximum link count for class.
- * @param[in] sendq Max SendQ for clients.
+ * @param[in] sendq Max SendQ for clients (0 for DEFAULTMAXSENDQLENGTH).
  */
 void add_class(char *name, unsigned int ping, unsigned int confreq,
                unsigned int maxfl, unsigned int maxli, unsigned int sendq)
@@ -230,10 +231,8 @@ void add_class(char *name, unsigned int ping, unsigned int confreq,
   ConFreq(p) = confreq;
   PingFreq(p) = ping;
   MaxLinks(p) = maxli;
-  MaxSendq(p) = (sendq > 0) ?
-     sendq : feature_int(FEAT_DEFAULTMAXSENDQLENGTH);
-  MaxFlood(p) = (maxfl > 0) ?
-     maxfl : feature_int(FEAT_CLIENT_FLOOD);
+  MaxSendq(p) = sendq;
+  MaxFlood(p) = maxfl;
   p->valid = 1;
 }
 
@@ -269,7 +268,11 @@ report_classes(struct Client *sptr, const struct StatDesc *sd,
   for (cltmp = connClassList; cltmp; cltmp = cltmp->next)
     send_reply(sptr, RPL_STATSYLINE, (cltmp->valid ? 'Y' : 'y'),
                ConClass(cltmp), PingFreq(cltmp), ConFreq(cltmp),
-               MaxLinks(cltmp), MaxSendq(cltmp), MaxFlood(cltmp),
+               MaxLinks(cltmp),
+               MaxSendq(cltmp) ? MaxSendq(cltmp)
+                 : (unsigned int)feature_int(FEAT_DEFAULTMAXSENDQLENGTH),
+               MaxFlood(cltmp) ? MaxFlood(cltmp)
+                 : (unsigned int)feature_int(FEAT_CLIENT_FLOOD),
                Links(cltmp) - 1, CCUmode(cltmp) ? CCUmode(cltmp) : "+");
 }
 
@@ -334,11 +337,11 @@ get_sendq(struct Client *cptr)
   if (cli_max_sendq(cptr))
     return cli_max_sendq(cptr);
 
-  if ((cl = class_resolve(cptr))) {
+  if ((cl = class_resolve(cptr)) && MaxSendq(cl)) {
     cli_max_sendq(cptr) = MaxSendq(cl);
     return cli_max_sendq(cptr);
   }
-  /* No class resolved: fall back to the feature default WITHOUT caching
+  /* No class resolved, or no limit of its own: fall back to the feature default WITHOUT caching
    * it, so a runtime /SET change applies to classless clients immediately
    * and a value read before the client's conf is attached cannot stick.
    */
@@ -360,7 +363,7 @@ find_max_flood(struct Client *cptr)
   if (cli_max_flood(cptr))
     return cli_max_flood(cptr);
 
-  if ((cl = class_resolve(cptr))) {
+  if ((cl = class_resolve(cptr)) && MaxFlood(cl)) {
     cli_max_flood(cptr) = MaxFlood(cl);
     return cli_max_flood(cptr);
   }
-- 
2.43.0


From b60dcf12f1a93372e6b7a50e2ca7dca73de4203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:48 +0000
Subject: [PATCH 38/54] fix: reconnecting with no free targets left granted
 twenty of them

IPcheck_local_connect() computed TARGET_DELAY * free_targets - 1 in
unsigned arithmetic: with no free targets left the next free target was
put 4294967295 seconds into the past, so anybody who had used up his free
targets got the maximum of twenty by reconnecting, and otherwise one more
than he had left.
---
 ircd/IPcheck.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ircd/IPcheck.c b/ircd/IPcheck.c
index 10414ad..dfb511a 100644
--- a/ircd/IPcheck.c
+++ b/ircd/IPcheck.c
@@ -503,7 +503,7 @@ static int ip_registry_check_local(const struct irc_in_addr *addr, time_t* next_
 
   if (entry->attempts < IPCHECK_CLONE_LIMIT) {
     if (next_target_out)
-      *next_target_out = CurrentTime - (TARGET_DELAY * free_targets - 1);
+      *next_target_out = CurrentTime - TARGET_DELAY * ((int)free_targets - 1);
   }
 #ifndef NOTHROTTLE
   else if ((CurrentTime - cli_since(&me)) > IPCHECK_CLONE_DELAY) {
-- 
2.43.0


From 5e1b18ee6e67ec2419d904493004a038745a3fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:40 +0000
Subject: [PATCH 39/54] fix: STATS R in the server's first second divided by
 its uptime of zero

os_get_rusage() divides by the uptime in seconds; asked for within the
second the server started (or with the clock set back to it) the server
died of SIGFPE.
---
 ircd/os_generic.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ircd/os_generic.c b/ircd/os_generic.c
index 00c4223..25d549b 100644
--- a/ircd/os_generic.c
+++ b/ircd/os_generic.c
@@ -230,6 +230,8 @@ int os_get_rusage(struct Client *cptr, int uptime, EnumFn enumerator)
   secs = rus.ru_utime.tv_sec + rus.ru_stime.tv_sec;
   if (secs == 0)
     secs = 1;
+  if (uptime == 0)
+    uptime = 1;
 
   sprintf(buf, "CPU Secs %ld:%ld User %ld:%ld System %ld:%ld",
           (long)(secs / 60), (long)(secs % 60),
-- 
2.43.0


From 63fc9e846151d8efdd1a6e13004f3111008f63fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:04 +0000
Subject: [PATCH 40/54] fix: INFO of an operator read beyond the end of the
 text

mo_info() looked 218 entries ahead in an array that has long been shorter;
the server sent whatever it found there or crashed.  Show the text up to the
list of sources to operators too, as m_info() and ms_info() do.
---
 ircd/m_info.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ircd/m_info.c b/ircd/m_info.c
index 3ed46cf..cbd31d1 100644
--- a/ircd/m_info.c
+++ b/ircd/m_info.c
@@ -175,12 +175,8 @@ int mo_info(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   if (hunt_server_cmd(sptr, CMD_INFO, cptr, 1, ":%C", 1, parc, parv) ==
       HUNTED_ISME)
   {
-    while (text[218])
-    {
-      if (!IsOper(sptr))
-	send_reply(sptr, RPL_INFO, *text);
-      text++;
-    }
+    while (*text && strcmp(*text, "Sources:"))
+      send_reply(sptr, RPL_INFO, *text++);
     if (IsOper(sptr) && (NULL != parv[1]))
     {
       while (*text)
-- 
2.43.0


From acb6f371c83475664e8a1e41adad232fa83a6800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:04 +0000
Subject: [PATCH 41/54] fix: STATS z during a reverse lookup read an
 uninitialised host name

---
 ircd/ircd_res.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ircd/ircd_res.c b/ircd/ircd_res.c
index c756b13..3a1d6d5 100644
--- a/ircd/ircd_res.c
+++ b/ircd/ircd_res.c
@@ -662,6 +662,7 @@ do_query_number(dns_callback_f callback, void *ctx, const struct irc_in_addr *ad
     request->type = T_PTR;
     memcpy(&request->addr, addr, sizeof(request->addr));
     request->name = (char *)MyMalloc(HOSTLEN + 1);
+    request->name[0] = '\0';
   }
   Debug((DEBUG_DNS, "Requesting DNS PTR %s as %p", ipbuf, request));
   query_name(ipbuf, C_IN, T_PTR, request);
-- 
2.43.0


From 5e6a2aca9c29b78ca125e8aa184264d0cc6304ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:57 +0000
Subject: [PATCH 42/54] fix: a message released from the spam hold ignored its
 recipient's +c and +R

---
 include/ircd_relay.h |  1 +
 ircd/ircd_relay.c    |  2 +-
 ircd/sline.c         | 14 ++++++++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/ircd_relay.h b/include/ircd_relay.h
index eeefdf8..51d0b79 100644
--- a/include/ircd_relay.h
+++ b/include/ircd_relay.h
@@ -29,6 +29,7 @@
 
 struct Client;
 
+extern int  commonchans_drop(struct Client* sptr, struct Client* acptr);
 extern void relay_channel_message(struct Client* sptr, const char* name, const char* text);
 extern void relay_channel_notice(struct Client* sptr, const char* name, const char* text);
 extern void relay_directed_message(struct Client* sptr, char* name, char* server, const char* text);
diff --git a/ircd/ircd_relay.c b/ircd/ircd_relay.c
index dbdb68d..e29b920 100644
--- a/ircd/ircd_relay.c
+++ b/ircd/ircd_relay.c
@@ -459,7 +459,7 @@ static int has_common_channel(struct Client *sptr, struct Client *acptr)
  * @param[in] acptr Target of the message.
  * @return Non-zero if the message should be dropped.
  */
-static int commonchans_drop(struct Client *sptr, struct Client *acptr)
+int commonchans_drop(struct Client *sptr, struct Client *acptr)
 {
   if (!IsCommonChans(acptr) || sptr == acptr)
     return 0;
diff --git a/ircd/sline.c b/ircd/sline.c
index d3bd411..be2ee89 100644
--- a/ircd/sline.c
+++ b/ircd/sline.c
@@ -28,6 +28,7 @@
 #include "ircd_features.h"
 #include "ircd_log.h"
 #include "ircd_netconf.h"
+#include "ircd_relay.h"
 #include "ircd_reply.h"
 #include "ircd_snprintf.h"
 #include "ircd_string.h"
@@ -1055,6 +1056,19 @@ sline_release_privmsg(struct HoldQueueEntry *entry)
     return 0;
   }
 
+  /* Check +R mode, which the recipient may have set in the meantime */
+  if (should_block_unauth_user(entry->sender, entry->target.recipient)) {
+    if (strcmp(entry->cmdtype, MSG_NOTICE))
+      send_reply_blocked_unauth_user(entry->sender, entry->target.recipient);
+    return 0;
+  }
+
+  /* Check +c mode: the message was held before relay_private_message() could */
+  if (commonchans_drop(entry->sender, entry->target.recipient)) {
+    Debug((DEBUG_DEBUG, "sline_release_privmsg: recipient only accepts common channels"));
+    return 0;
+  }
+
   /* Send away message if user is away */
   if (cli_user(entry->target.recipient) && cli_user(entry->target.recipient)->away)
     send_reply(entry->sender, RPL_AWAY, cli_name(entry->target.recipient), cli_user(entry->target.recipient)->away);
-- 
2.43.0


From 6218157d2c1d0267453a2aee026478dd63ef5df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:31 +0000
Subject: [PATCH 43/54] fix: a newer confirmation of an S-line was not recorded
 or passed on

---
 ircd/m_sline.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ircd/m_sline.c b/ircd/m_sline.c
index 25186da..be223f4 100644
--- a/ircd/m_sline.c
+++ b/ircd/m_sline.c
@@ -185,14 +185,14 @@ ms_sline(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
       updates |= SLINE_EXPIRE;
     }
 
-    /* If there is no updates, we ignore. */
+    /* If there is no updates, only remember the newer timestamp, so that
+     * all servers agree on which later changes are outdated. */
     if (updates == 0) {
-      Debug((DEBUG_DEBUG, "S-line already exists with same state, msgtype and expire time, ignoring"));
-      return 0;
-    }
-
-    /* Modify S:line record. */
-    sline_modify(sptr, asline, lastmod, expire, msgtype, *state == '+' ? SLINE_ACTIVE : 0, updates);
+      Debug((DEBUG_DEBUG, "S-line already exists with same state, msgtype and expire time"));
+      asline->sl_lastmod = lastmod;
+    } else
+      /* Modify S:line record. */
+      sline_modify(sptr, asline, lastmod, expire, msgtype, *state == '+' ? SLINE_ACTIVE : 0, updates);
   } else {
     /* If we rejected the S-line locally, do not propagate it. */
     if (!sline_add(cptr, sptr, pattern, lastmod, expire, msgtype, *state == '+' ? SLINE_ACTIVE : 0))
-- 
2.43.0


From dbd4ca552c4e03ba3c8c5fb87107dd47a204887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:53 +0000
Subject: [PATCH 44/54] fix: the spam hold's timeout read an entry it had just
 released

---
 ircd/sline.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ircd/sline.c b/ircd/sline.c
index be2ee89..6f9fac2 100644
--- a/ircd/sline.c
+++ b/ircd/sline.c
@@ -1417,10 +1417,11 @@ sline_hold_timeout_callback(struct Event* ev)
         
         /* sline_release_hold() removes and frees the entry regardless of
          * whether delivery succeeded, so we must not free it again here. */
-        if (sline_release_hold(entry->token)) {
-          Debug((DEBUG_DEBUG, "sline_hold_timeout_callback: successfully released expired token %u", entry->token));
+        uint64_t token = entry->token;
+        if (sline_release_hold(token)) {
+          Debug((DEBUG_DEBUG, "sline_hold_timeout_callback: successfully released expired token %u", token));
         } else {
-          Debug((DEBUG_DEBUG, "sline_hold_timeout_callback: expired token %u could not be delivered", entry->token));
+          Debug((DEBUG_DEBUG, "sline_hold_timeout_callback: expired token %u could not be delivered", token));
         }
       }
     }
-- 
2.43.0


From 6c133f7bb643ac901b37002ff97eb824c12eb0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:08 +0000
Subject: [PATCH 45/54] fix: a notice released from the spam hold was answered
 with an away message

---
 ircd/sline.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ircd/sline.c b/ircd/sline.c
index 6f9fac2..0b6fb52 100644
--- a/ircd/sline.c
+++ b/ircd/sline.c
@@ -1069,8 +1069,8 @@ sline_release_privmsg(struct HoldQueueEntry *entry)
     return 0;
   }
 
-  /* Send away message if user is away */
-  if (cli_user(entry->target.recipient) && cli_user(entry->target.recipient)->away)
+  /* Send away message if user is away; a notice gets no automatic reply */
+  if (strcmp(entry->cmdtype, MSG_NOTICE) && cli_user(entry->target.recipient) && cli_user(entry->target.recipient)->away)
     send_reply(entry->sender, RPL_AWAY, cli_name(entry->target.recipient), cli_user(entry->target.recipient)->away);
 
   /* Deliver the message */
-- 
2.43.0


From 75f9ffee8880da11f0417ff65503959ca59b52eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:32 +0000
Subject: [PATCH 46/54] fix: a server's numeric was taken for that of one of
 its users

findNUser() read a two-character (server) numeric as a one-character
server numeric and a user, so that e.g. a numeric reply addressed to a
server reached whichever user happened to have that slot there.
---
 ircd/numnicks.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ircd/numnicks.c b/ircd/numnicks.c
index 01dc2ee..735e3bf 100644
--- a/ircd/numnicks.c
+++ b/ircd/numnicks.c
@@ -209,7 +209,7 @@ struct Client* findNUser(const char* yxx)
       return cli_serv(server)->client_list[base64toint(yxx + 2) & cli_serv(server)->nn_mask];
     }
   }
-  else if (0 != (server = FindNServer(yxx))) {
+  else if (3 == strlen(yxx) && 0 != (server = FindNServer(yxx))) {
     Debug((DEBUG_DEBUG, "findNUser: %s(%d)",
            yxx, base64toint(yxx + 1) & cli_serv(server)->nn_mask));
     return cli_serv(server)->client_list[base64toint(yxx + 1) & cli_serv(server)->nn_mask];
-- 
2.43.0


From 292e9f6c3a452ae2a936962320499098314b82b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:03 +0000
Subject: [PATCH 47/54] fix: poll engine gave a new socket the events of an
 earlier one

A socket added while events are being processed takes the first free
slot, whose revents may still be those poll() reported for a socket
removed since (UPING from an operator then aborted on a write event).
---
 ircd/engine_poll.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ircd/engine_poll.c b/ircd/engine_poll.c
index 83e0767..2630559 100644
--- a/ircd/engine_poll.c
+++ b/ircd/engine_poll.c
@@ -193,6 +193,7 @@ engine_add(struct Socket* sock)
   s_ed_int(sock) = i; /* set engine data */
   sockList[i] = sock; /* enter socket into data structures */
   pollfdList[i].fd = s_fd(sock);
+  pollfdList[i].revents = 0; /* those of a previous user are not ours */
 
   Debug((DEBUG_ENGINE, "poll: Adding socket %d to engine on %d [%p], state %s",
 	 s_fd(sock), s_ed_int(sock), sock, state_to_name(s_state(sock))));
-- 
2.43.0


From 5b9de4e5de52ed8c0cbfaf1c7f81e7ec6f5b00a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:21 +0000
Subject: [PATCH 48/54] fix: poll engine never let go of a socket that was hung
 up

A socket reported with POLLHUP kept a reference and was never destroyed:
a dead IAuth helper was not started again, and the next rehash freed its
connection while the engine still knew it.
---
 ircd/engine_poll.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ircd/engine_poll.c b/ircd/engine_poll.c
index 2630559..d69f884 100644
--- a/ircd/engine_poll.c
+++ b/ircd/engine_poll.c
@@ -342,6 +342,7 @@ engine_loop(struct Generators* gen)
       if (pollfdList[i].revents & POLLHUP) { /* hang-up on socket */
 	Debug((DEBUG_ENGINE, "poll: EOF from client (POLLHUP)"));
 	event_generate(ET_EOF, sock, 0);
+	gen_ref_dec(sock); /* careful not to leak ref counts */
 	nfds--;
 	continue;
       }
@@ -381,6 +382,7 @@ engine_loop(struct Generators* gen)
 	  case -1: /* error occurred?!? */
 	    if (errno == EAGAIN) {
 	      Debug((DEBUG_ENGINE, "poll: Resource temporarily unavailable?"));
+	      gen_ref_dec(sock); /* careful not to leak ref counts */
 	      continue;
 	    }
 	    Debug((DEBUG_ENGINE, "poll: Uncaught error!"));
-- 
2.43.0


From 4285394902a861d87e0e336f89276d7273500c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:31 +0000
Subject: [PATCH 49/54] fix: iauth helper restarted after a failed write was
 never read

---
 ircd/s_auth.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index ef97e5f..9db7df7 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -1684,22 +1684,37 @@ void auth_mark_closing(void)
  */
 static void iauth_disconnect(struct IAuth *iauth)
 {
+  int has_err, has_main;
+
   if (iauth == NULL)
     return;
 
+  /* Destroying the later of the two sockets starts a new process (see
+   * their callbacks), so put that off until both are marked unused.
+   */
+  has_err = s_fd(i_stderr(iauth)) != -1;
+  has_main = s_fd(i_socket(iauth)) != -1;
+
   /* Close error socket. */
-  if (s_fd(i_stderr(iauth)) != -1) {
+  if (has_err) {
+    gen_ref_inc(i_stderr(iauth));
     close(s_fd(i_stderr(iauth)));
     socket_del(i_stderr(iauth));
     s_fd(i_stderr(iauth)) = -1;
   }
 
   /* Close main socket. */
-  if (s_fd(i_socket(iauth)) != -1) {
+  if (has_main) {
+    gen_ref_inc(i_socket(iauth));
     close(s_fd(i_socket(iauth)));
     socket_del(i_socket(iauth));
     s_fd(i_socket(iauth)) = -1;
   }
+
+  if (has_err)
+    gen_ref_dec(i_stderr(iauth));
+  if (has_main)
+    gen_ref_dec(i_socket(iauth));
 }
 
 /** Close all %IAuth connections marked as closing. */
-- 
2.43.0


From a43bc62f6c247dfe0378d4bf5583f2b88e9f63a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:31 +0000
Subject: [PATCH 50/54] fix: restarted iauth helper inherited the blocked state
 of its predecessor

---
 ircd/s_auth.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index 9db7df7..38c7c89 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -1525,6 +1525,12 @@ int iauth_do_spawn(struct IAuth *iauth, int automatic)
   /* Record time we tried to spawn the iauth process. */
   iauth->started = CurrentTime;
 
+  /* Nothing of a previous process concerns the new one. */
+  IAuthClr(iauth, IAUTH_BLOCKED);
+  MsgQClear(i_sendQ(iauth));
+  iauth->i_count = 0;
+  iauth->i_errcount = 0;
+
   /* Attempt to allocate a pair of sockets. */
   res = os_socketpair(s_io);
   if (res) {
-- 
2.43.0


From 00b9752c8f91afa0f3054b76f7a5059f073503c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:49 +0000
Subject: [PATCH 51/54] fix: account ids and flags above 31 bits were mangled
 by other servers

---
 ircd/m_account.c | 4 ++--
 ircd/s_user.c    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ircd/m_account.c b/ircd/m_account.c
index 07c4f89..548f7ea 100644
--- a/ircd/m_account.c
+++ b/ircd/m_account.c
@@ -127,10 +127,10 @@ int ms_account(struct Client* cptr, struct Client* sptr, int parc,
     return 0; /* Ignore ACCOUNT for a user that QUIT; probably crossed */
 
   if (parc > 3)
-    acc_id = atoi(parv[3]);
+    acc_id = strtoull(parv[3], NULL, 10);
 
   if (parc > 4)
-    acc_flags = atoi(parv[4]);
+    acc_flags = strtoull(parv[4], NULL, 10);
 
   /* If the client already has an account, we do not accept changes to the account or acc_id. */
   if (IsAccount(acptr)) {
diff --git a/ircd/s_user.c b/ircd/s_user.c
index 9d41815..c007a73 100644
--- a/ircd/s_user.c
+++ b/ircd/s_user.c
@@ -1227,7 +1227,7 @@ int set_user_mode(struct Client *cptr, struct Client *sptr, int parc,
       char *id, *flags;
       if ((id = strchr(account, ':'))) {
         len = (id++) - account;
-	      cli_user(sptr)->acc_id = atoi(id);
+	      cli_user(sptr)->acc_id = strtoull(id, NULL, 10);
 	      Debug((DEBUG_DEBUG, "Received account id in user mode; "
 	        "account \"%s\", id %qu", account,
 	        cli_user(sptr)->acc_id));
@@ -1235,7 +1235,7 @@ int set_user_mode(struct Client *cptr, struct Client *sptr, int parc,
         /* Check for account flags */
         if ((flags = strchr(id, ':'))) {
             // Parse the flags after the second colon.
-            cli_user(sptr)->acc_flags = atoi(flags + 1);
+            cli_user(sptr)->acc_flags = strtoull(flags + 1, NULL, 10);
             // Null-terminate the account string before flags.
             *flags = '\0';
             Debug((DEBUG_DEBUG, "Received account flags; account \"%s\", flags %qu",
-- 
2.43.0


From 1a8306b689beed9fd86946414ac1e25e469ee767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:00 +0000
Subject: [PATCH 52/54] fix: over-long account name in a NICK message overran
 its buffer

---
 ircd/s_user.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ircd/s_user.c b/ircd/s_user.c
index c007a73..4cb48d7 100644
--- a/ircd/s_user.c
+++ b/ircd/s_user.c
@@ -1227,6 +1227,8 @@ int set_user_mode(struct Client *cptr, struct Client *sptr, int parc,
       char *id, *flags;
       if ((id = strchr(account, ':'))) {
         len = (id++) - account;
+        if (len > ACCOUNTLEN)
+          len = ACCOUNTLEN;
 	      cli_user(sptr)->acc_id = strtoull(id, NULL, 10);
 	      Debug((DEBUG_DEBUG, "Received account id in user mode; "
 	        "account \"%s\", id %qu", account,
-- 
2.43.0


From 34cf32a1063e98072a62b618944d4f385c15ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:17 +0000
Subject: [PATCH 53/54] fix: account flags were cut off in NICK when id and
 flags are long

---
 ircd/s_user.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ircd/s_user.c b/ircd/s_user.c
index 4cb48d7..a108737 100644
--- a/ircd/s_user.c
+++ b/ircd/s_user.c
@@ -1322,7 +1322,7 @@ char *umode_str(struct Client *cptr)
     m--; /* back up over previous nul-termination */
 
     if (cli_user(cptr)->acc_id) {
-      char nbuf[30];
+      char nbuf[48]; /* ":" and 20 digits, twice */
       Debug((DEBUG_DEBUG, "Sending account id in user mode for "
 	     "account \"%s\"; id %qu", cli_user(cptr)->account,
 	     cli_user(cptr)->acc_id));
-- 
2.43.0


From 77c3b11d4267ff5cc1e84da769814c66a93fd5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:54 +0000
Subject: [PATCH 54/54] fix: m_server: check the numeric of a new server also
 when a ghost was removed

---
 ircd/m_server.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ircd/m_server.c b/ircd/m_server.c
index c2c469c..f5a8fc9 100644
--- a/ircd/m_server.c
+++ b/ircd/m_server.c
@@ -434,6 +434,16 @@ check_loop_and_lh(struct Client* cptr, struct Client *sptr, time_t *ghost, const
     }
   }
 
+  /*
+   * The search above ends when it finds this link's own handshake or
+   * has removed a ghost, possibly without having looked at the numeric.
+   */
+  if (numnick && (acptr = FindNServer(numnick))
+      && 0 != ircd_strcmp(cli_name(acptr), host))
+    return exit_client_msg(cptr, cptr, &me,
+        "NUMERIC collision between %s and %s."
+        " Is your server numeric correct ?", host, cli_name(acptr));
+
   return 1;
 }
 
-- 
2.43.0

