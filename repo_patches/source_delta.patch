From 7ed4008fded276b45c409716fdb93dffb010cc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:14 +0000
Subject: [PATCH 01/35] fix: match() honours escapes when backtracking and
 never reads past a mask ending in a backslash

---
 ircd/match.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ircd/match.c b/ircd/match.c
index cb3db43..508e8ea 100644
--- a/ircd/match.c
+++ b/ircd/match.c
@@ -205,10 +205,15 @@ int match(const char *mask, const char *name)
       return 1;
     break;
   case '\\':
+    if (!*n)
+      return 1;
     m++;
-    /* allow escaping to force capitalization */
-    if (*m++ != *n++)
+    /* allow escaping to force capitalization; a mask that ends in a
+     * lone backslash cannot match anything */
+    if (*m != *n)
       goto backtrack;
+    m++;
+    n++;
     break;
   case '*': case '?':
     for (star_p = 0; ; m++) {
@@ -223,12 +228,12 @@ int match(const char *mask, const char *name)
       if (!*m)
         return 0;
       else if (*m == '\\') {
-        m_tmp = ++m;
-        if (!*m)
-          return 1;
-        for (n_tmp = n; *n && *n != *m; n++) ;
-        if (!*n || *n++ != *m++)
+        /* keep m_tmp on the backslash, so that a later backtrack still
+         * treats the character after it as escaped */
+        m_tmp = m;
+        if (!m[1])
           return 1;
+        for (n_tmp = n; *n && *n != m[1]; n++) ;
       } else {
         m_tmp = m;
         for (n_tmp = n; *n && ToLower(*n) != ToLower(*m); n++) ;
-- 
2.43.0


From e0fd51ed1e43d1ca6392f06a236127c65bc71b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:40 +0000
Subject: [PATCH 02/35] fix: ircd_ntoa_r() lost groups of IPv6 addresses with
 several equal runs of zeros

---
 ircd/ircd_string.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ircd/ircd_string.c b/ircd/ircd_string.c
index cbcedc5..ccfc4ad 100644
--- a/ircd/ircd_string.c
+++ b/ircd/ircd_string.c
@@ -413,9 +413,11 @@ const char* ircd_ntoa_r(char* buf, const struct irc_in_addr* in)
       for (max_start = ii = 1, max_zeros = curr_zeros = 0; ii < 8; ++ii) {
         if (!in->in6_16[ii])
           curr_zeros++;
-        else if (curr_zeros > max_zeros) {
-          max_start = ii - curr_zeros;
-          max_zeros = curr_zeros;
+        else {
+          if (curr_zeros > max_zeros) {
+            max_start = ii - curr_zeros;
+            max_zeros = curr_zeros;
+          }
           curr_zeros = 0;
         }
       }
-- 
2.43.0


From 6b2e049a16f652ab26385d18ccfc8f06cbf2e520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:22 +0000
Subject: [PATCH 03/35] fix: a text ban no longer counts as a superset of a
 CIDR ban by its text

bmatch() compared the text of an address range with a text mask, so
*!*@*.4.0* was taken to cover *!*@10.0.4.0/24: setting one dropped or
refused the other and users matching only the range were let in.
---
 ircd/channel.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ircd/channel.c b/ircd/channel.c
index fb58324..7bd584a 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -2878,8 +2878,15 @@ bmatch(struct Ban *old_ban, struct Ban *new_ban)
       && (new_ban->flags & BAN_EXCEPTION))
     return 1;
   /* If either is not an address mask, match the text masks. */
-  if ((old_ban->flags & new_ban->flags & BAN_IPMASK) == 0)
+  if ((old_ban->flags & new_ban->flags & BAN_IPMASK) == 0) {
+    /* The text of an address range is not the text of the addresses in
+     * it, so a text mask covers a range only if it covers every host. */
+    if ((new_ban->flags & BAN_IPMASK)
+        && strchr(new_ban->banstr + new_ban->nu_len, '/')
+        && strcmp(old_ban->banstr + old_ban->nu_len, "@*"))
+      return 1;
     return mmatch(old_ban->banstr, new_ban->banstr);
+  }
   /* If the old ban has a longer prefix than new, it cannot be a superset. */
   if (old_ban->addrbits > new_ban->addrbits)
     return 1;
-- 
2.43.0


From e6bb9b36d8b50d33f282252daba722add16fc5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:00 +0000
Subject: [PATCH 04/35] fix: bouncing a refused limit or key change restores
 the old value

The bounce of -l was sent as +l without a parameter, so the peer took the
timestamp as the limit; the bounce of +l or +k over an existing value did
not give the old value back.
---
 ircd/channel.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ircd/channel.c b/ircd/channel.c
index 7bd584a..6e8e2d4 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -2145,7 +2145,9 @@ modebuf_mode_uint(struct ModeBuf *mbuf, unsigned int mode, unsigned int uint)
   assert(0 != mbuf);
   assert(0 != (mode & (MODE_ADD | MODE_DEL)));
 
-  if (mode == (MODE_LIMIT | MODE_DEL)) {
+  /* a bounce has to give the limit back, so it needs the parameter */
+  if (mode == (MODE_LIMIT | MODE_DEL) &&
+      !(mbuf->mb_dest & MODEBUF_DEST_BOUNCE)) {
       mbuf->mb_rem |= mode;
       return;
   }
@@ -2450,7 +2452,11 @@ mode_parse_limit(struct ParseState *state, int *flag_p)
   if (!state->mbuf)
     return;
 
-  modebuf_mode_uint(state->mbuf, state->dir | flag_p[0], t_limit);
+  if ((state->flags & MODE_PARSE_BOUNCE) && state->chptr->mode.limit)
+    modebuf_mode_uint(state->mbuf, MODE_DEL | flag_p[0], /* reset old limit */
+		      state->chptr->mode.limit);
+  else
+    modebuf_mode_uint(state->mbuf, state->dir | flag_p[0], t_limit);
 
   if (state->flags & MODE_PARSE_SET) { /* set the limit */
     if (state->dir & MODE_ADD) {
@@ -2558,7 +2564,7 @@ mode_parse_key(struct ParseState *state, int *flag_p)
     return;
 
   /* can't add a key if one is set, nor can one remove the wrong key */
-  if (!(state->flags & MODE_PARSE_FORCE))
+  if (!(state->flags & (MODE_PARSE_FORCE | MODE_PARSE_BOUNCE)))
     if ((state->dir == MODE_ADD && *state->chptr->mode.key) ||
 	(state->dir == MODE_DEL &&
 	 ircd_strcmp(state->chptr->mode.key, t_str))) {
-- 
2.43.0


From c3165de932cecc7dddfea350834750250d57205a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:29 +0000
Subject: [PATCH 05/35] fix: clear limit and key of a channel that loses to an
 older BURST

When a BURST with an older timestamp arrived, the channel's limit, key and
passwords were only announced as removed, never cleared, and not even that if
the burst carried no mode string; a key that sorted before the burst's key also
survived.  The channel then kept a limit and key no other server had.
---
 ircd/m_burst.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/ircd/m_burst.c b/ircd/m_burst.c
index b4f4b40..77c7228 100644
--- a/ircd/m_burst.c
+++ b/ircd/m_burst.c
@@ -138,6 +138,24 @@ netride_modes(int parc, char **parv, const char *curr_key)
   return result;
 }
 
+/** Clear a string channel mode that lost to an older burst.
+ * @param[in,out] mbuf Mode buffer that announces the change.
+ * @param[in] mode Mode bit for the string.
+ * @param[in,out] str Current value of the mode.
+ */
+static void
+burst_wipe_string(struct ModeBuf *mbuf, unsigned int mode, char *str)
+{
+  char *dup;
+
+  if (*str == '\0')
+    return;
+
+  DupString(dup, str);
+  modebuf_mode_string(mbuf, MODE_DEL | mode, dup, 1);
+  *str = '\0';
+}
+
 /*
  * ms_burst - server message handler
  *
@@ -343,7 +361,15 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
     modebuf_mode(mbuf, MODE_DEL | chptr->mode.mode); /* wipeout modes */
     chptr->mode.mode &= MODE_BURSTADDED | MODE_WASDELJOINS;
 
-    /* wipeout any limit and keys that are set */
+    /* wipeout any limit and keys that are set; the burst may not carry
+     * a mode string, so do not leave this to mode_parse() */
+    if (chptr->mode.limit) {
+      modebuf_mode_uint(mbuf, MODE_DEL | MODE_LIMIT, chptr->mode.limit);
+      chptr->mode.limit = 0;
+    }
+    burst_wipe_string(mbuf, MODE_KEY, chptr->mode.key);
+    burst_wipe_string(mbuf, MODE_UPASS, chptr->mode.upass);
+    burst_wipe_string(mbuf, MODE_APASS, chptr->mode.apass);
     parse_flags |= (MODE_PARSE_SET | MODE_PARSE_WIPEOUT);
 
     /* mark bans for wipeout */
-- 
2.43.0


From 03e72bfc5ba72f54fb4b84b5bffaffb4ce13340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:17 +0000
Subject: [PATCH 06/35] fix: show the removed key when an older JOIN wipes a
 channel's modes

ms_join() cleared the key and passwords before modebuf_flush() read them, so
members saw "-k" without its parameter and took the next name for it.
---
 ircd/m_join.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/ircd/m_join.c b/ircd/m_join.c
index 7a925e6..326324d 100644
--- a/ircd/m_join.c
+++ b/ircd/m_join.c
@@ -420,20 +420,15 @@ int ms_join(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
           chptr->mode.limit = 0;
         }
 
-        if (chptr->mode.key[0]) {
+        /* The strings must stay until modebuf_* are done with them. */
+        if (chptr->mode.key[0])
           modebuf_mode_string(&mbuf, MODE_DEL | MODE_KEY, chptr->mode.key, 0);
-          chptr->mode.key[0] = '\0';
-        }
 
-        if (chptr->mode.upass[0]) {
+        if (chptr->mode.upass[0])
           modebuf_mode_string(&mbuf, MODE_DEL | MODE_UPASS, chptr->mode.upass, 0);
-          chptr->mode.upass[0] = '\0';
-        }
 
-        if (chptr->mode.apass[0]) {
+        if (chptr->mode.apass[0])
           modebuf_mode_string(&mbuf, MODE_DEL | MODE_APASS, chptr->mode.apass, 0);
-          chptr->mode.apass[0] = '\0';
-        }
 
         for (member = chptr->members; member; member = member->next_member)
         {
@@ -447,6 +442,10 @@ int ms_join(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
           }
         }
         modebuf_flush(&mbuf);
+
+        chptr->mode.key[0] = '\0';
+        chptr->mode.upass[0] = '\0';
+        chptr->mode.apass[0] = '\0';
       }
     }
 
-- 
2.43.0


From b635e7878671d23c9ae5380a1bf04648f2c13e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 07/35] fix: do not read past the end of a short numeric nick

A one-character message prefix from a server made findNUser() decode the empty
string, and base64toint() stepped over its terminator.
---
 ircd/numnicks.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ircd/numnicks.c b/ircd/numnicks.c
index 01dc2ee..7ac193a 100644
--- a/ircd/numnicks.c
+++ b/ircd/numnicks.c
@@ -135,7 +135,7 @@ static const unsigned int convert2n[] = {
  */
 unsigned int base64toint(const char* s)
 {
-  unsigned int i = convert2n[(unsigned char) *s++];
+  unsigned int i = 0;
   while (*s) {
     i <<= NUMNICKLOG;
     i += convert2n[(unsigned char) *s++];
@@ -209,7 +209,7 @@ struct Client* findNUser(const char* yxx)
       return cli_serv(server)->client_list[base64toint(yxx + 2) & cli_serv(server)->nn_mask];
     }
   }
-  else if (0 != (server = FindNServer(yxx))) {
+  else if ('\0' != *yxx && 0 != (server = FindNServer(yxx))) {
     Debug((DEBUG_DEBUG, "findNUser: %s(%d)",
            yxx, base64toint(yxx + 1) & cli_serv(server)->nn_mask));
     return cli_serv(server)->client_list[base64toint(yxx + 1) & cli_serv(server)->nn_mask];
-- 
2.43.0


From dd522cccf19a189ec3be0bdb3381aee557ce8f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:21 +0000
Subject: [PATCH 08/35] fix: do not run remnants of the previous line for a
 blank line from a server

parse_server() stepped over the terminator of a line that holds only blanks or
message tags and parsed what an earlier, longer line had left in the buffer.
---
 ircd/parse.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ircd/parse.c b/ircd/parse.c
index 8fd4472..f6a166a 100644
--- a/ircd/parse.c
+++ b/ircd/parse.c
@@ -1164,11 +1164,8 @@ int parse_server(struct Client *cptr, char *buffer, char *bufend)
     else
       from = findNUser(numeric_prefix);
 
-    do
-    {
+    while (*ch != ' ' && *ch)
       ++ch;
-    }
-    while (*ch != ' ' && *ch);
 
     /*
      * If the client corresponding to the
-- 
2.43.0


From cadfa8db209b374050c5c276b5d7278dcaaa3fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:21 +0000
Subject: [PATCH 09/35] fix: do not read past the parameters of a BURST whose
 modes lack their arguments

---
 ircd/m_burst.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ircd/m_burst.c b/ircd/m_burst.c
index 77c7228..f05fc02 100644
--- a/ircd/m_burst.c
+++ b/ircd/m_burst.c
@@ -121,10 +121,14 @@ netride_modes(int parc, char **parv, const char *curr_key)
       result |= MODE_INVITEONLY;
       break;
     case 'k':
+      if (--parc < 1)
+        return -1;
       if (strcmp(curr_key, *++parv))
         result |= MODE_KEY;
       break;
     case 'l':
+      if (--parc < 1)
+        return -1;
       ++parv;
       break;
     case 'r':
-- 
2.43.0


From 7c6d22abf76b0260ed6ae46ce5532498928c7327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:22 +0000
Subject: [PATCH 10/35] fix: ignore SERVER introductions made in the name of a
 user

---
 ircd/m_server.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ircd/m_server.c b/ircd/m_server.c
index c2c469c..a78be2c 100644
--- a/ircd/m_server.c
+++ b/ircd/m_server.c
@@ -710,6 +710,9 @@ int ms_server(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   {
     return need_more_params(sptr, "SERVER");
   }
+  if (!IsServer(sptr))
+    return protocol_violation(cptr, "Non-server %s tried to introduce a server",
+                              cli_name(sptr));
   host = clean_servername(parv[1]);
   if (!host)
   {
-- 
2.43.0


From 0f40faa2e60596dae5251729b0209abaf8de949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:41 +0000
Subject: [PATCH 11/35] fix: apply host G-lines to clients that are registering

gline_lookup() compared host G-lines with the user's realhost, but
find_kill() runs before check_auth_finished() fills that in, so such a
G-line never refused a new client.  Compare with sockhost instead, as
do_gline() and K-lines do.
---
 ircd/gline.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ircd/gline.c b/ircd/gline.c
index ec36e02..a01d967 100644
--- a/ircd/gline.c
+++ b/ircd/gline.c
@@ -1016,7 +1016,9 @@ gline_lookup(struct Client *cptr, unsigned int flags)
           continue;
       }
       else {
-        if (match(gline->gl_host, (cli_user(cptr))->realhost) != 0)
+        /* As in do_gline(): realhost is not set yet for clients that
+         * are checked while they register. */
+        if (match(gline->gl_host, cli_sockhost(cptr)) != 0)
           continue;
       }
     }
-- 
2.43.0


From 8c25fac30853fe4ec82c08869d2dfb3f09369f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:59 +0000
Subject: [PATCH 12/35] fix: require the local_jupe privilege for JUPE without
 a target

mo_jupe() checked privileges only when a target server was given; the
short form, which sets a local jupe (and can drop the jupe's server),
was open to operators without local_jupe.
---
 ircd/m_jupe.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/m_jupe.c b/ircd/m_jupe.c
index 51f219f..da83b84 100644
--- a/ircd/m_jupe.c
+++ b/ircd/m_jupe.c
@@ -239,7 +239,8 @@ int mo_jupe(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
       flags |= JUPE_LOCAL;
     } else if (!HasPriv(sptr, PRIV_JUPE))
       return send_reply(sptr, ERR_NOPRIVILEGES);
-  }
+  } else if (!HasPriv(sptr, PRIV_LOCAL_JUPE))
+    return send_reply(sptr, ERR_NOPRIVILEGES);
 
   ajupe = jupe_find(server);
 
-- 
2.43.0


From faff51ea871a85b2c3df6e67a772374c59463ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:03 +0000
Subject: [PATCH 13/35] fix: pass on the deactivation of a locally deactivated
 jupe

jupe_deactivate() treated a global deactivation of a jupe that had been
deactivated locally as no change and did not tell the other servers,
leaving the jupe active on their side of the network.
---
 ircd/jupe.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ircd/jupe.c b/ircd/jupe.c
index 243ae62..11b089c 100644
--- a/ircd/jupe.c
+++ b/ircd/jupe.c
@@ -256,7 +256,10 @@ jupe_deactivate(struct Client *cptr, struct Client *sptr, struct Jupe *jupe,
 	jupe->ju_lastmod = lastmod;
     }
 
-    if ((saveflags & JUPE_ACTMASK) != JUPE_ACTIVE)
+    /* A global change must be propagated even if the jupe is locally
+     * deactivated. */
+    if ((saveflags & (flags & JUPE_LOCAL ? JUPE_ACTMASK : JUPE_ACTIVE))
+        != JUPE_ACTIVE)
       return 0; /* was inactive to begin with */
   }
 
-- 
2.43.0


From ec85f899d853b1f60ec0cf00aaa1c879192fb380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:29 +0000
Subject: [PATCH 14/35] fix: do not free the auth request of a server
 connection twice

start_dns_ident() already checks whether anything is left to wait for.  On
a server port with neither DNS nor ident lookups to wait for, that freed
the auth request, and start_auth() then checked and freed it again, which
made the free list point to itself: the next two clients to connect shared
one request, and its timer made the timer list a loop.
---
 ircd/s_auth.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index 20ec3b3..cb90cee 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -1290,15 +1290,15 @@ void start_auth(struct Client* client)
     }
   }
 
-  /* Start DNS and ident queries, except websocket connections not having a handshake. */
-  if (!IsWebsocketPort(client) || IsWebsocket(client))
-    start_dns_ident(client);
-
   /* Add client to GlobalClientList. */
   add_client_to_list(client);
 
-  /* Check which auth events remain pending. */
-  check_auth_finished(auth, 0);
+  /* Start DNS and ident queries, except websocket connections not having a
+   * handshake.  This may finish (and free) the auth request, if nothing is
+   * left to wait for.
+   */
+  if (!IsWebsocketPort(client) || IsWebsocket(client))
+    start_dns_ident(client);
 }
 
 /** Start DNS and ident queries for a client, if appropriate.
-- 
2.43.0


From 5ddfde8cbd9ee8e5f82106f12b059edff9e9497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:50 +0000
Subject: [PATCH 15/35] fix: IPcheck's clock must not wrap every 65536 seconds

NOW was cut to 16 bits but compared with plain int arithmetic, so after each
wrap the time since an address's last attempt was negative: its attempts were
never forgotten and it stayed throttled, and unused entries did not expire,
until the clock caught up again up to 18 hours later.
---
 ircd/IPcheck.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ircd/IPcheck.c b/ircd/IPcheck.c
index a81246d..6a7e4c1 100644
--- a/ircd/IPcheck.c
+++ b/ircd/IPcheck.c
@@ -52,7 +52,7 @@ struct IPRegistryEntry {
   struct IPRegistryEntry*  next;   /**< Next entry in the hash chain. */
   struct IPTargetEntry*    target; /**< Recent targets, if any. */
   struct irc_in_addr       addr;   /**< IP address for this user. */
-  int		           last_connect; /**< Last connection attempt timestamp. */
+  time_t                   last_connect; /**< Last connection attempt timestamp. */
   unsigned short           connected; /**< Number of currently connected clients. */
   unsigned char            attempts; /**< Number of recent connection attempts. */
 };
@@ -60,7 +60,7 @@ struct IPRegistryEntry {
 /** Stores information about an IPv6/48 block's recent connections. */
 struct IPRegistry48 {
   struct IPRegistry48* next;     /**< Next entry in the hash chain. */
-  int              last_connect; /**< Last connection attempt timestamp. */
+  time_t           last_connect; /**< Last connection attempt timestamp. */
   uint16_t             addr[3];  /**< 48 MSBs of IP address. */
   unsigned short       attempts; /**< Number of recent connection attempts. */
 };
@@ -68,7 +68,7 @@ struct IPRegistry48 {
 /** Size of hash table (must be a power of two). */
 #define IP_REGISTRY_TABLE_SIZE 0x10000
 /** Report current time for tracking in IPRegistryEntry::last_connect. */
-#define NOW ((unsigned short)(CurrentTime & 0xffff))
+#define NOW (CurrentTime)
 /** Time from \a x until now, in seconds. */
 #define CONNECTED_SINCE(x) (NOW - (x))
 
-- 
2.43.0


From 1ba1a0fab453c940b2a857b2484ff3a57f6b1323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:03 +0000
Subject: [PATCH 16/35] fix: exempt clients must not be uncounted by IPcheck
 when they leave

Clients from addresses in an IPCheck exception are not counted when they
connect, but were subtracted from the count of their /64 when they left (or
from that of their address, if the exception had been removed meanwhile).
With another client in the same /64, which was counted, the count fell
below zero and the server aborted on the assertion for it.
---
 include/IPcheck.h |  1 +
 ircd/IPcheck.c    | 25 +++++++++++++++++++------
 ircd/s_auth.c     |  3 ++-
 ircd/s_bsd.c      |  3 ++-
 ircd/websocket.c  |  3 ++-
 5 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/include/IPcheck.h b/include/IPcheck.h
index 9a1d50f..92456ad 100644
--- a/include/IPcheck.h
+++ b/include/IPcheck.h
@@ -20,6 +20,7 @@ extern void IPcheck_init(void);
 extern void IPcheck_clear_config(void);
 extern int IPcheck_except(const char *ip_mask);
 extern int IPcheck_local_connect(const struct irc_in_addr *ip, time_t *next_target_out);
+extern int IPcheck_is_exempt(const struct irc_in_addr *a);
 extern void IPcheck_connect_fail(const struct Client *cptr, int disconnect);
 extern void IPcheck_connect_succeeded(struct Client *cptr);
 extern int IPcheck_remote_connect(struct Client *cptr, int is_burst);
diff --git a/ircd/IPcheck.c b/ircd/IPcheck.c
index 6a7e4c1..29497f2 100644
--- a/ircd/IPcheck.c
+++ b/ircd/IPcheck.c
@@ -535,10 +535,6 @@ static int ip_registry_check_remote(struct Client* cptr, int is_burst)
 {
   struct IPRegistryEntry* entry;
 
-  /*
-   * Mark that we did add/update an IPregistry entry
-   */
-  SetIPChecked(cptr);
   if (!irc_in_addr_valid(&cli_ip(cptr))) {
     Debug((DEBUG_DNS, "IPcheck accepting remote connection from invalid %s.", ircd_ntoa(&cli_ip(cptr))));
     return 1;
@@ -548,6 +544,11 @@ static int ip_registry_check_remote(struct Client* cptr, int is_burst)
     return 1;
   }
 
+  /*
+   * Mark that we did add/update an IPregistry entry
+   */
+  SetIPChecked(cptr);
+
   if (!irc_in_addr_is_ipv4(&cli_ip(cptr))) {
     struct IPRegistry48* entry_48 = ip_48_find(&cli_ip(cptr));
     if (CONNECTED_SINCE(entry_48->last_connect) > IPCHECK_48_CLONE_PERIOD)
@@ -752,6 +753,16 @@ int IPcheck_remote_connect(struct Client *cptr, int is_burst)
   return ip_registry_check_remote(cptr, is_burst);
 }
 
+/** Check whether connections from an address are not counted at all.
+ * Clients from such an address must not be marked with SetIPChecked().
+ * @param[in] a Address of client.
+ * @return Non-zero if the address is exempt from IPcheck.
+ */
+int IPcheck_is_exempt(const struct irc_in_addr *a)
+{
+  return ip_registry_is_exempt(a);
+}
+
 /** Handle a client being rejected during connection through no fault
  * of their own.  This "undoes" the effect of ip_registry_check_local()
  * so the client's address is not penalized for the failure.
@@ -760,7 +771,8 @@ int IPcheck_remote_connect(struct Client *cptr, int is_burst)
  */
 void IPcheck_connect_fail(const struct Client *cptr, int disconnect)
 {
-  assert(IsIPChecked(cptr));
+  if (!IsIPChecked(cptr))
+    return;
   ip_registry_connect_fail(&cli_ip(cptr), disconnect);
 }
 
@@ -773,7 +785,8 @@ void IPcheck_connect_fail(const struct Client *cptr, int disconnect)
 void IPcheck_connect_succeeded(struct Client *cptr)
 {
   assert(0 != cptr);
-  assert(IsIPChecked(cptr));
+  if (!IsIPChecked(cptr))
+    return;
   ip_registry_connect_succeeded(cptr);
 }
 
diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index cb90cee..520e806 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -1476,7 +1476,8 @@ int auth_spoof_user(struct AuthRequest *auth, const char *username, const char *
     ++ServerStats->is_throttled;
     return exit_client(sptr, sptr, &me, "Your host is trying to (re)connect too fast -- throttled");
   }
-  SetIPChecked(sptr);
+  if (!IPcheck_is_exempt(&cli_ip(sptr)))
+    SetIPChecked(sptr);
 
   if (next_target)
     cli_nexttarget(sptr) = next_target;
diff --git a/ircd/s_bsd.c b/ircd/s_bsd.c
index 15036f2..0d1cdaf 100644
--- a/ircd/s_bsd.c
+++ b/ircd/s_bsd.c
@@ -586,7 +586,8 @@ void add_connection(struct Listener* listener, int fd) {
         close(fd);
         return;
       }
-      SetIPChecked(new_client);
+      if (!IPcheck_is_exempt(&addr.addr))
+        SetIPChecked(new_client);
     }
   }
 
diff --git a/ircd/websocket.c b/ircd/websocket.c
index 16e73f4..74e9bcf 100644
--- a/ircd/websocket.c
+++ b/ircd/websocket.c
@@ -178,7 +178,8 @@ static int websocket_apply_client_ip(struct Client *cptr, const char *ip)
     ++ServerStats->is_throttled;
     return 0;
   }
-  SetIPChecked(cptr);
+  if (!IPcheck_is_exempt(&addr))
+    SetIPChecked(cptr);
 
   memcpy(&cli_ip(cptr), &addr, sizeof(cli_ip(cptr)));
   ircd_ntoa_r(cli_sock_ip(cptr), &cli_ip(cptr));
-- 
2.43.0


From 584e848364d9fec55c148b76099f4659b7eb1a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:57 +0000
Subject: [PATCH 17/35] fix: let IPcheck find 6to4 addresses whatever their
 subnet

An address in 2002::/16 is the same one for IPcheck as the IPv4 address in
it, but only the comparison left out the subnet: the hash did not, so the
entry was normally not found.
---
 ircd/IPcheck.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/IPcheck.c b/ircd/IPcheck.c
index 29497f2..b008768 100644
--- a/ircd/IPcheck.c
+++ b/ircd/IPcheck.c
@@ -116,7 +116,8 @@ static void ip_registry_canonicalize(struct irc_in_addr *out, const struct irc_i
         out->in6_16[0] = in->in6_16[0];
         out->in6_16[1] = in->in6_16[1];
         out->in6_16[2] = in->in6_16[2];
-        out->in6_16[3] = in->in6_16[3];
+        /* The subnet is not part of the key for 6to4 addresses. */
+        out->in6_16[3] = (in->in6_16[0] == htons(0x2002)) ? 0 : in->in6_16[3];
     }
 
     out->in6_16[4] = out->in6_16[5] = 0;
-- 
2.43.0


From bc148be3000fedb8dcf1fe6f1b065bc9a1dfe900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:16 +0000
Subject: [PATCH 18/35] fix: pass on an explicitly stated MAXOPLEVEL when a
 user ops someone

---
 ircd/channel.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ircd/channel.c b/ircd/channel.c
index 6e8e2d4..a3df422 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -1963,9 +1963,14 @@ modebuf_flush_int(struct ModeBuf *mbuf, int all)
 	strptr_i = &remstr_i;
       }
 
-      /* if we're changing oplevels and we know the oplevel, pass it on */
+      /* if we're changing oplevels and we know the oplevel, pass it on;
+       * a user's explicit MAXOPLEVEL must be passed on as well, because
+       * without a level other servers derive it from the user's own. */
       if ((MB_TYPE(mbuf, i) & MODE_CHANOP)
-          && MB_OPLEVEL(mbuf, i) < MAXOPLEVEL)
+          && (MB_OPLEVEL(mbuf, i) < MAXOPLEVEL
+              || (MB_OPLEVEL(mbuf, i) == MAXOPLEVEL
+                  && !(mbuf->mb_dest & MODEBUF_DEST_BOUNCE)
+                  && !IsServer(mbuf->mb_source))))
           *strptr_i += ircd_snprintf(0, strptr + *strptr_i, BUFSIZE - *strptr_i,
                                      " %s%s:%d",
                                      NumNick(MB_CLIENT(mbuf, i)),
-- 
2.43.0


From 52ba86afe8c92c370a39f3e6b8a083f0c4b487e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:08 +0000
Subject: [PATCH 19/35] fix: require the TLS fingerprint of an Operator block
 for all of its hosts

---
 ircd/ircd_parser.y | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ircd/ircd_parser.y b/ircd/ircd_parser.y
index 1c5491e..623d9d1 100644
--- a/ircd/ircd_parser.y
+++ b/ircd/ircd_parser.y
@@ -745,10 +745,7 @@ operblock: OPER {
     memcpy(&aconf->privs, &privs, sizeof(aconf->privs));
     memcpy(&aconf->privs_dirty, &privs_dirty, sizeof(aconf->privs_dirty));
     if (tls_fingerprint)
-    {
-      aconf->tls_fingerprint = tls_fingerprint;
-      tls_fingerprint = NULL;
-    }
+      DupString(aconf->tls_fingerprint, tls_fingerprint);
   }
   MyFree(name);
   MyFree(pass);
-- 
2.43.0


From 9d78fdb393e6af7a3b687e7130353d00e2e4d4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:43 +0000
Subject: [PATCH 20/35] fix: admit as many clients as a class's maxlinks says

---
 ircd/s_conf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/s_conf.c b/ircd/s_conf.c
index e30651e..28122d4 100644
--- a/ircd/s_conf.c
+++ b/ircd/s_conf.c
@@ -673,7 +673,8 @@ enum AuthorizationCheckResult attach_conf(struct Client *cptr, struct ConfItem *
   if (IsIllegal(aconf))
     return ACR_NO_AUTHORIZATION;
   if ((aconf->status & (CONF_OPERATOR | CONF_CLIENT)) &&
-      ConfLinks(aconf) >= ConfMaxLinks(aconf) && ConfMaxLinks(aconf) > 0)
+      /* a class's reference count starts at 1, so it is links + 1 */
+      ConfLinks(aconf) > ConfMaxLinks(aconf) && ConfMaxLinks(aconf) > 0)
     return ACR_TOO_MANY_IN_CLASS;  /* Use this for printing error message */
   lp = make_link();
   lp->next = cli_confs(cptr);
-- 
2.43.0


From 490e25d390961d585967dd248441b3c214d74ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:39 +0000
Subject: [PATCH 21/35] fix: accept the documented "tls fingerprint" item in
 Client blocks

---
 ircd/ircd_parser.y | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ircd/ircd_parser.y b/ircd/ircd_parser.y
index 623d9d1..d906c0c 100644
--- a/ircd/ircd_parser.y
+++ b/ircd/ircd_parser.y
@@ -1057,12 +1057,14 @@ clientblock: CLIENT
     aconf->conn_class = c_class;
     aconf->maximum = maxlinks;
     aconf->passwd = pass;
+    aconf->tls_fingerprint = tls_fingerprint;
   }
   if (!aconf) {
     MyFree(username);
     MyFree(host);
     MyFree(ip);
     MyFree(pass);
+    MyFree(tls_fingerprint);
   }
   if (username)
     DoIdentLookups = 1;
@@ -1072,10 +1074,11 @@ clientblock: CLIENT
   maxlinks = 0;
   ip = NULL;
   pass = NULL;
+  tls_fingerprint = NULL;
   port = 0;
 };
 clientitems: clientitem clientitems | clientitem;
-clientitem: clienthost | clientip | clientusername | clientclass | clientpass | clientmaxlinks | clientport;
+clientitem: clienthost | clientip | clientusername | clientclass | clientpass | clientmaxlinks | clientport | tlsfingerprint;
 clienthost: HOST '=' QSTRING ';'
 {
   char *sep = strchr($3, '@');
-- 
2.43.0


From d670fd28343fcd7f2fbcfbff8014bf793727dad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:01 +0000
Subject: [PATCH 22/35] fix: refuse connection rules with missing operands or
 too many arguments instead of crashing

---
 ircd/crule.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ircd/crule.c b/ircd/crule.c
index 3728417..e6a53fa 100644
--- a/ircd/crule.c
+++ b/ircd/crule.c
@@ -477,6 +477,8 @@ static int crule_parseorexpr(CRuleNodePtr * orrootp, int *next_tokp, const char*
   while (errcode == CR_NOERR)
   {
     errcode = crule_parseandexpr(&andexpr, next_tokp, ruleptr);
+    if ((errcode == CR_NOERR) && (*next_tokp == CR_OR) && (andexpr == NULL))
+      errcode = CR_EXPCTAND; /* operator without a left operand */
     if ((errcode == CR_NOERR) && (*next_tokp == CR_OR))
     {
       orptr = (CRuleNodePtr) MyMalloc(sizeof(struct CRuleNode));
@@ -485,6 +487,7 @@ static int crule_parseorexpr(CRuleNodePtr * orrootp, int *next_tokp, const char*
 #endif
       orptr->funcptr = crule__andor;
       orptr->numargs = 3;
+      orptr->arg[1] = NULL;    /* so free doesn't seg fault */
       orptr->arg[2] = (void *)1;
       if (*orrootp != NULL)
       {
@@ -537,6 +540,8 @@ static int crule_parseandexpr(CRuleNodePtr * androotp, int *next_tokp, const cha
   while (errcode == CR_NOERR)
   {
     errcode = crule_parseprimary(&primary, next_tokp, ruleptr);
+    if ((errcode == CR_NOERR) && (*next_tokp == CR_AND) && (primary == NULL))
+      errcode = CR_EXPCTPRIM; /* operator without a left operand */
     if ((errcode == CR_NOERR) && (*next_tokp == CR_AND))
     {
       andptr = (CRuleNodePtr) MyMalloc(sizeof(struct CRuleNode));
@@ -545,6 +550,7 @@ static int crule_parseandexpr(CRuleNodePtr * androotp, int *next_tokp, const cha
 #endif
       andptr->funcptr = crule__andor;
       andptr->numargs = 3;
+      andptr->arg[1] = NULL;    /* so free doesn't seg fault */
       andptr->arg[2] = (void *)0;
       if (*androotp != NULL)
       {
@@ -737,6 +743,8 @@ static int crule_parsearglist(CRuleNodePtr argrootp, int *next_tokp, const char*
 #endif
         if (currarg[0] != '\0')
         {
+          if (argrootp->numargs >= CR_MAXARGS)
+            return (CR_ARGMISMAT);
           DupString(argelemp, currarg);
           argrootp->arg[argrootp->numargs++] = (void *)argelemp;
         }
-- 
2.43.0


From 2eedd32d982634082fb2d19874d84beccdee58d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:23 +0000
Subject: [PATCH 23/35] fix: refuse websocket frames whose length does not fit,
 instead of reading their payload as frames

---
 ircd/websocket.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ircd/websocket.c b/ircd/websocket.c
index 74e9bcf..72ea7ca 100644
--- a/ircd/websocket.c
+++ b/ircd/websocket.c
@@ -17,6 +17,7 @@
  * Foundation, Inc., 675 Mass Ave, Cambridge, MA 02139, USA.
  */
 #include <stdio.h>
+#include <limits.h>
 #include <string.h>
 #include <stdlib.h>
 #include <unistd.h>
@@ -542,13 +543,19 @@ int websocket_parse_frame(struct Client *cptr, const char *buf, size_t buflen) {
         header_len = 4;
     } else if (payload_len == 127) {
         if (buflen < 10) return 0;
-        /* Only support up to 32-bit length for simplicity (buf[2..5] ignored);
-         * cast to unsigned char before shifting to avoid sign extension. */
+        /* The frame's full size must fit the int we return (and the caller
+         * drains by): refuse lengths that need more than 31 bits, rather than
+         * taking the rest of such a payload for frames. */
+        if (buf[2] || buf[3] || buf[4] || buf[5] || (buf[6] & 0x80))
+            return -2;
+        /* Cast to unsigned char before shifting to avoid sign extension. */
         payload_len = ((size_t)(unsigned char)buf[6] << 24)
                     | ((size_t)(unsigned char)buf[7] << 16)
                     | ((size_t)(unsigned char)buf[8] << 8)
                     | (size_t)(unsigned char)buf[9];
         header_len = 10;
+        if (payload_len > INT_MAX - (header_len + 4))
+            return -2;
     }
     if (mask) {
         if (buflen < header_len + 4) return 0;
-- 
2.43.0


From 9f873d5728d5caa83ca389bbd60c1f257bc0aa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:06 +0000
Subject: [PATCH 24/35] fix: queue websocket control frames behind unsent
 output instead of writing them into the middle of a frame

---
 ircd/websocket.c | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/ircd/websocket.c b/ircd/websocket.c
index 72ea7ca..f5fc446 100644
--- a/ircd/websocket.c
+++ b/ircd/websocket.c
@@ -66,34 +66,26 @@ static int websocket_send_handshake(struct Client *cptr, const char *accept_key,
 static void trim_http_field(char *str);
 static int websocket_apply_client_ip(struct Client *cptr, const char *ip);
 
-/** Write raw octets to a WebSocket client (TLS-aware, no IRC/WS framing). */
+/** Send raw octets to a WebSocket client (no IRC/WS framing).  They are queued
+ * behind whatever is still unsent, so that they neither end up in the middle
+ * of a partly written frame nor get lost while the socket is not writable. */
 static int websocket_write_raw(struct Client *cptr, const void *data, size_t len)
 {
   struct MsgBuf *mb;
-  unsigned int count;
 
   if (!cptr || len == 0 || len > UINT_MAX)
     return -1;
   if (IsNegotiatingTLS(cptr))
     return -1;
 
-  if (IsTLS(cptr) && s_tls(&cli_socket(cptr))) {
-    mb = msgq_raw_alloc(cptr, (unsigned int)len);
-    if (!mb)
-      return -1;
-    memcpy(mb->msg, data, len);
-    mb->length = (unsigned int)len;
-    send_raw_buffer(cptr, mb, 0);
-    msgq_clean(mb);
-    if (IsDead(cptr))
-      return -1;
-    return 0;
-  }
-
-  if (os_send_nonb(cli_fd(cptr), data, (unsigned int)len, &count) != IO_SUCCESS
-      || count != len)
+  mb = msgq_raw_alloc(cptr, (unsigned int)len);
+  if (!mb)
     return -1;
-  return 0;
+  memcpy(mb->msg, data, len);
+  mb->length = (unsigned int)len;
+  send_raw_buffer(cptr, mb, 0);
+  msgq_clean(mb);
+  return IsDead(cptr) ? -1 : 0;
 }
 
 /** Send a minimal HTTP 400 response for a failed WebSocket handshake, so a
-- 
2.43.0


From 52ecdba2147bc22ea13b4e5d8b94570683037300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:22 +0000
Subject: [PATCH 25/35] fix: give the message of a PART on every channel that
 allows it, not only on those before one that does not

---
 ircd/channel.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/ircd/channel.c b/ircd/channel.c
index a3df422..83ca29d 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -3663,6 +3663,7 @@ joinbuf_join(struct JoinBuf *jbuf, struct Channel *chan, unsigned int flags)
 {
   unsigned int len;
   int is_local;
+  char *comment;
 
   assert(0 != jbuf);
 
@@ -3680,19 +3681,18 @@ joinbuf_join(struct JoinBuf *jbuf, struct Channel *chan, unsigned int flags)
       return;
     SetUserParting(member);
 
-    /* Clear part message if CHFL_BANNED is set. */
-    if (flags & CHFL_BANNED)
-      jbuf->jb_comment = NULL;
+    /* No part message for this channel if CHFL_BANNED is set. */
+    comment = (flags & CHFL_BANNED) ? NULL : jbuf->jb_comment;
 
     /* Send notification to channel */
     if (!(flags & (CHFL_ZOMBIE | CHFL_DELAYED)))
       sendcmdto_channel_butserv_butone(jbuf->jb_source, CMD_PART, chan, NULL, 0,
-				jbuf->jb_comment ?
-				"%H :%s" : ":%H", chan, jbuf->jb_comment);
+				comment ?
+				"%H :%s" : ":%H", chan, comment);
     else if (MyUser(jbuf->jb_source))
       sendcmdto_one(jbuf->jb_source, CMD_PART, jbuf->jb_source,
-		    jbuf->jb_comment ?
-		    "%H :%s" : ":%H", chan, jbuf->jb_comment);
+		    comment ?
+		    "%H :%s" : ":%H", chan, comment);
     /* XXX: Shouldn't we send a PART here anyway? */
     /* to users on the channel?  Why?  From their POV, the user isn't on
      * the channel anymore anyway.  We don't send to servers until below,
@@ -3703,6 +3703,14 @@ joinbuf_join(struct JoinBuf *jbuf, struct Channel *chan, unsigned int flags)
     if (jbuf->jb_type == JOINBUF_TYPE_PARTALL ||
 	is_local) /* got to remove user here */
       remove_user_from_channel(jbuf->jb_source, chan);
+    else if (comment != jbuf->jb_comment) {
+      /* leave it out of the list of channels parted with the message */
+      joinbuf_flush(jbuf);
+      sendcmdto_serv_butone(jbuf->jb_source, CMD_PART, jbuf->jb_connect,
+			    "%H", chan);
+      remove_user_from_channel(jbuf->jb_source, chan);
+      return;
+    }
   } else {
     int oplevel = !chan->mode.apass[0] ? MAXOPLEVEL
         : (flags & CHFL_CHANNEL_MANAGER) ? 0
-- 
2.43.0


From 7a90d219380c2512832b36f662bc4c99fe32af80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:58 +0000
Subject: [PATCH 26/35] fix: ms_nick: kill a user renamed to an invalid nick by
 numeric, once and here too

The KILL named the user by nick, which P10 servers do not accept (the
parser drops it as a protocol violation), was sent twice to the link the
user is behind, and did not remove the user here.
---
 ircd/m_nick.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/ircd/m_nick.c b/ircd/m_nick.c
index 8b62235..6ae76d3 100644
--- a/ircd/m_nick.c
+++ b/ircd/m_nick.c
@@ -330,19 +330,24 @@ int ms_nick(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
     ++ServerStats->is_kill;
     sendto_opmask_butone(0, SNO_OLDSNO, "Bad Nick: %s From: %s %C", parv[1],
 			 parv[0], cptr);
-    sendcmdto_one(&me, CMD_KILL, cptr, "%s :%s (%s <- %s[%s])",
-		  IsServer(sptr) ? parv[parc - 2] : parv[0], cli_name(&me), parv[1],
-		  nick, cli_name(cptr));
-    if (!IsServer(sptr))
+    if (IsServer(sptr))
+    {
+      sendcmdto_one(&me, CMD_KILL, cptr, "%s :%s (%s <- %s[%s])",
+		    parv[parc - 2], cli_name(&me), parv[1], nick,
+		    cli_name(cptr));
+    }
+    else
     {
       /*
        * bad nick _change_
        */
-      sendcmdto_serv_butone(&me, CMD_KILL, 0, "%s :%s (%s <- %s!%s@%s)",
-			    parv[0], cli_name(&me), cli_name(cptr), parv[0],
-			    cli_user(sptr) ? cli_username(sptr) : "",
-			    cli_user(sptr) ? cli_name(cli_user(sptr)->server) :
-			    cli_name(cptr));
+      sendcmdto_serv_butone(&me, CMD_KILL, 0, "%C :%s (%s <- %s!%s@%s)",
+			    sptr, cli_name(&me), cli_name(cptr), parv[0],
+			    cli_username(sptr),
+			    cli_name(cli_user(sptr)->server));
+      SetFlag(sptr, FLAG_KILLED);
+      exit_client_msg(cptr, sptr, &me, "Killed (%s (Bad nick))",
+                      feature_str(FEAT_HIS_SERVERNAME));
     }
     return 0;
   }
-- 
2.43.0


From 673845dcd5c0d74734627e90c15384e544796d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:58 +0000
Subject: [PATCH 27/35] fix: cap_new, cap_del: tell the client with the highest
 file descriptor too

---
 ircd/m_cap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ircd/m_cap.c b/ircd/m_cap.c
index 4f48c7b..07428d0 100644
--- a/ircd/m_cap.c
+++ b/ircd/m_cap.c
@@ -389,7 +389,7 @@ void cap_new(enum Capab cap)
     return;
   
   /* Iterate through all local clients */
-  for (i = 0; i < HighestFd; i++) {
+  for (i = 0; i <= HighestFd; i++) {
     if (!(acptr = LocalClientArray[i]))
       continue;
       
@@ -431,7 +431,7 @@ void cap_del(enum Capab cap)
   }
   
   /* Iterate through all local clients */
-  for (i = 0; i < HighestFd; i++) {
+  for (i = 0; i <= HighestFd; i++) {
     if (!(acptr = LocalClientArray[i]))
       continue;
       
-- 
2.43.0


From dedfc327518433259810754ce784c10e4afaedbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:58 +0000
Subject: [PATCH 28/35] fix: cap_del: a withdrawn capability is no longer in
 effect nor listed

---
 ircd/m_cap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ircd/m_cap.c b/ircd/m_cap.c
index 07428d0..ea56b6a 100644
--- a/ircd/m_cap.c
+++ b/ircd/m_cap.c
@@ -443,6 +443,7 @@ void cap_del(enum Capab cap)
     sendcmdto_one(&me, CMD_CAP, acptr, "%C DEL :%s", acptr, cap_name);
 
     /* Disable the capability for this client. */
+    CapClr(cli_capab(acptr), capab_list[cap_index].cap);
     CapClr(cli_active(acptr), capab_list[cap_index].cap);
   }
 }
-- 
2.43.0


From 2cf183ce5f7b59704292a6a809ac6729facde200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:58 +0000
Subject: [PATCH 29/35] fix: cap_req: do not acknowledge every capability to
 CAP REQ without a list

---
 ircd/m_cap.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ircd/m_cap.c b/ircd/m_cap.c
index ea56b6a..371cfe3 100644
--- a/ircd/m_cap.c
+++ b/ircd/m_cap.c
@@ -284,7 +284,7 @@ cap_ls(struct Client *sptr, const char *caplist)
 static int
 cap_req(struct Client *sptr, const char *caplist)
 {
-  const char *cl = caplist;
+  const char *cl;
   struct capabilities *cap;
   capset_t set = 0, rem = 0;
   capset_t cs = cli_capab(sptr); /* capability set */
@@ -294,6 +294,10 @@ cap_req(struct Client *sptr, const char *caplist)
   if (IsUserPort(sptr) || IsWebsocketPort(sptr)) /* registration hasn't completed; suspend it... */
     auth_cap_start(cli_auth(sptr));
 
+  if (!caplist) /* an omitted list is the same as an empty one */
+    caplist = "";
+
+  cl = caplist;
   while (cl) { /* walk through the capabilities list... */
     if (!(cap = find_cap(&cl, &neg)) /* look up capability... */
         || (cap->config != 0 && !feature_bool(cap->config)) /* is it deactivated in config? */
-- 
2.43.0


From 86a5fdb7b25fd59674c05e6581a1deb8a65496c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:58 +0000
Subject: [PATCH 30/35] fix: m_sasl: end the session when it is aborted or
 times out

---
 ircd/m_sasl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ircd/m_sasl.c b/ircd/m_sasl.c
index 4bf054d..bdf5544 100644
--- a/ircd/m_sasl.c
+++ b/ircd/m_sasl.c
@@ -124,6 +124,7 @@ static void sasl_timeout_callback(struct Event* ev)
     
     /* Clear SASL session */
     sasl_stop_timeout(cptr);
+    sasl_session_remove(cli_sasl(cptr));
     cli_sasl(cptr) = 0;
   }
 }
@@ -177,6 +178,7 @@ int m_sasl(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
     /* SASL abort - stop timeout and clear session */
     if (cli_sasl(cptr)) {
       sasl_stop_timeout(cptr);
+      sasl_session_remove(cli_sasl(cptr));
       cli_sasl(cptr) = 0;
     }
     send_reply(cptr, ERR_SASLABORTED);
-- 
2.43.0


From 8d39a012d020559ecc758f719a83f766adafe77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:58 +0000
Subject: [PATCH 31/35] fix: forget the message tags of a line once it is
 handled

---
 include/parse.h |  1 +
 ircd/packet.c   | 16 +++++++++++++---
 ircd/parse.c    | 10 ++++++++++
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/parse.h b/include/parse.h
index db08aa5..bed7606 100644
--- a/include/parse.h
+++ b/include/parse.h
@@ -13,6 +13,7 @@ struct s_map;
  * Prototypes
  */
 
+extern void parse_tags_done(void);
 extern int parse_client(struct Client *cptr, char *buffer, char *bufend);
 extern int parse_server(struct Client *cptr, char *buffer, char *bufend);
 /** Tags parsed from the current input line (valid only during handler). */
diff --git a/ircd/packet.c b/ircd/packet.c
index 7757fe7..1752b20 100644
--- a/ircd/packet.c
+++ b/ircd/packet.c
@@ -71,6 +71,7 @@ int server_dopacket(struct Client* cptr, const char* buffer, int length)
   char*       client_buffer;
   char*       body;                 /* Start of body after tags, or NULL
                                        while still reading the tag section. */
+  int         result;
 
   assert(0 != cptr);
 
@@ -116,7 +117,9 @@ int server_dopacket(struct Client* cptr, const char* buffer, int length)
 
       update_messages_received(cptr);
 
-      if (parse_server(cptr, cli_buffer(cptr), endp) == CPTR_KILLED)
+      result = parse_server(cptr, cli_buffer(cptr), endp);
+      parse_tags_done();
+      if (result == CPTR_KILLED)
         return CPTR_KILLED;
       /*
        *  Socket is dead so exit
@@ -176,6 +179,7 @@ int connect_dopacket(struct Client *cptr, const char *buffer, int length)
   char*       endp;
   char*       client_buffer;
   char*       body;
+  int         result;
 
   assert(0 != cptr);
 
@@ -219,7 +223,9 @@ int connect_dopacket(struct Client *cptr, const char *buffer, int length)
 
       update_messages_received(cptr);
 
-      if (parse_client(cptr, cli_buffer(cptr), endp) == CPTR_KILLED)
+      result = parse_client(cptr, cli_buffer(cptr), endp);
+      parse_tags_done();
+      if (result == CPTR_KILLED)
         return CPTR_KILLED;
       /* Socket is dead so exit */
       if (IsDead(cptr))
@@ -272,12 +278,16 @@ int connect_dopacket(struct Client *cptr, const char *buffer, int length)
  */
 int client_dopacket(struct Client *cptr, unsigned int length)
 {
+  int result;
+
   assert(0 != cptr);
 
   update_bytes_received(cptr, length);
   update_messages_received(cptr);
 
-  if (CPTR_KILLED == parse_client(cptr, cli_buffer(cptr), cli_buffer(cptr) + length))
+  result = parse_client(cptr, cli_buffer(cptr), cli_buffer(cptr) + length);
+  parse_tags_done();
+  if (CPTR_KILLED == result)
     return CPTR_KILLED;
   else if (IsDead(cptr))
     return exit_client(cptr, cptr, &me, cli_info(cptr));
diff --git a/ircd/parse.c b/ircd/parse.c
index f6a166a..b2cdb99 100644
--- a/ircd/parse.c
+++ b/ircd/parse.c
@@ -704,6 +704,16 @@ parse_tags(void)
   return current_tags;
 }
 
+/** Forget the tags of a line once it is handled: they point into the
+ * client's input buffer and must not leak into messages sent for any
+ * other reason.
+ */
+void
+parse_tags_done(void)
+{
+  current_tags = NULL;
+}
+
 /** Parse optional IRCv3 tags at the start of a line.
  * @param[in,out] ch Current parse position.
  * @param[in] bufend End of line.
-- 
2.43.0


From 056a714eb2047ca075d7bf8b87f424299d7ceba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:58 +0000
Subject: [PATCH 32/35] fix: do not send TAGMSG to clients without message-tags

---
 ircd/send.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ircd/send.c b/ircd/send.c
index b2715d4..3aeb772 100644
--- a/ircd/send.c
+++ b/ircd/send.c
@@ -263,6 +263,7 @@ struct MsgTagCtx {
   time_t         local_time;  /**< Delivery time for server-time / @time=. */
   int            client_relay;   /**< Has relayable client-only (+) tags. */
   int            s2s_needs_time; /**< Invent/forward @time= on S2S for this command. */
+  int            tags_only;      /**< TAGMSG: only for clients with message-tags. */
 };
 
 /** Per-fan-out prefix cache: amortizes prefix formatting across many local
@@ -285,6 +286,7 @@ msgtagctx_init(struct MsgTagCtx *ctx, const char *tok)
   ctx->local_time = CurrentTime;
   ctx->client_relay = msg_tag_have_client_relay(ctx->tags);
   ctx->s2s_needs_time = tok ? msg_tag_s2s_needs_time(tok) : 0;
+  ctx->tags_only = tok && !ircd_strcmp(tok, TOK_TAGMSG);
 }
 
 static void
@@ -366,6 +368,11 @@ void send_buffer(struct Client* to, struct Client* from, struct MsgBuf* buf, int
     return;
   }
 
+  /* A client that has not negotiated message-tags must not see TAGMSG. */
+  if (tctx && tctx->tags_only && !IsServer(to)
+      && !CapHas(cli_active(to), CAP_MESSAGE_TAGS))
+    return;
+
   if (IsServer(to)) {
     /* Older peers cannot parse @tags; gate on NETWORK_FEATURES.
      * Invent @time= only for client-event commands (see s2s_needs_time). */
-- 
2.43.0


From 79f8be5f5fbe46559e1904f9177436ef66b6b955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:58 +0000
Subject: [PATCH 33/35] fix: msg_tag_parse: keep tags in order, so that the
 last of a repeated tag counts

---
 ircd/msg_tag.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ircd/msg_tag.c b/ircd/msg_tag.c
index bc27084..18f5555 100644
--- a/ircd/msg_tag.c
+++ b/ircd/msg_tag.c
@@ -132,6 +132,7 @@ struct MsgTag *
 msg_tag_parse(char *start, char *end)
 {
   struct MsgTag *head = NULL;
+  struct MsgTag **tail = &head;
   char *p = start;
 
   tag_count = 0;
@@ -164,8 +165,9 @@ msg_tag_parse(char *start, char *end)
       tag = &tag_storage[tag_count++];
       tag->key = key;
       tag->value = val;
-      tag->next = head;
-      head = tag;
+      tag->next = NULL;
+      *tail = tag;
+      tail = &tag->next;
     }
 
     if (semi >= end)
@@ -179,11 +181,14 @@ msg_tag_parse(char *start, char *end)
 struct MsgTag *
 msg_tag_find(struct MsgTag *tags, const char *key)
 {
+  struct MsgTag *found = NULL;
+
+  /* If a tag is repeated, its last occurrence counts. */
   for (; tags; tags = tags->next) {
     if (!ircd_strcmp(tags->key, key))
-      return tags;
+      found = tags;
   }
-  return NULL;
+  return found;
 }
 
 /** Strip optional leading '+' from a client-only tag key for deny lookup. */
-- 
2.43.0


From dae6fbcb8af5251700e93ee3c87f11c9eefb696c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:04 +0000
Subject: [PATCH 34/35] fix: tagmsg_check_cap: refuse TAGMSG from clients
 without message-tags

---
 ircd/m_tagmsg.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ircd/m_tagmsg.c b/ircd/m_tagmsg.c
index 2ad177a..f35f286 100644
--- a/ircd/m_tagmsg.c
+++ b/ircd/m_tagmsg.c
@@ -30,8 +30,10 @@
 static int
 tagmsg_check_cap(struct Client *sptr)
 {
-  if (!CapHas(cli_active(sptr), CAP_MESSAGE_TAGS))
-    return send_reply(sptr, ERR_UNKNOWNCOMMAND, MSG_TAGMSG);
+  if (!CapHas(cli_active(sptr), CAP_MESSAGE_TAGS)) {
+    send_reply(sptr, ERR_UNKNOWNCOMMAND, MSG_TAGMSG);
+    return 1;
+  }
   return 0;
 }
 
-- 
2.43.0


From 018edf5bfc9a268ff59e3b74673c808ed7553fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:09 +0000
Subject: [PATCH 35/35] fix: a client that used up its targets gets none by
 reconnecting

The registry set the next target time of a client from a known address to
now - (TARGET_DELAY * free - 1), one delay too early: a second after
reconnecting there was one target more than had been left behind.
---
 ircd/IPcheck.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ircd/IPcheck.c b/ircd/IPcheck.c
index b008768..836ff20 100644
--- a/ircd/IPcheck.c
+++ b/ircd/IPcheck.c
@@ -503,7 +503,7 @@ static int ip_registry_check_local(const struct irc_in_addr *addr, time_t* next_
 
   if (entry->attempts < IPCHECK_CLONE_LIMIT) {
     if (next_target_out)
-      *next_target_out = CurrentTime - (TARGET_DELAY * free_targets - 1);
+      *next_target_out = CurrentTime - TARGET_DELAY * ((int)free_targets - 1);
   }
 #ifndef NOTHROTTLE
   else if ((CurrentTime - cli_since(&me)) > IPCHECK_CLONE_DELAY) {
-- 
2.43.0

