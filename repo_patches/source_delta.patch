From d32360b5116b639ced5161b8c5a2ccfb747a7885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:58 +0000
Subject: [PATCH 01/95] fix: reveal a delayed-join member on every server when
 it sets an unchanged topic

---
 ircd/m_topic.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ircd/m_topic.c b/ircd/m_topic.c
index 045047c..16cec22 100644
--- a/ircd/m_topic.c
+++ b/ircd/m_topic.c
@@ -53,6 +53,7 @@ static void do_settopic(struct Client *sptr, struct Client *cptr,
 		        struct Channel *chptr, char *topic, time_t ts, char *who)
 {
    struct Client *from;
+   struct Membership *member;
    int newtopic;
 
    if (feature_bool(FEAT_HIS_BANWHO) && IsServer(sptr))
@@ -77,15 +78,15 @@ static void do_settopic(struct Client *sptr, struct Client *cptr,
    if (!IsLocalChannel(chptr->chname))
      sendcmdto_serv_butone(sptr, CMD_TOPIC, cptr, "%H %Tu %Tu %s :%s", chptr,
 		           chptr->creationtime, chptr->topic_time, chptr->topic_nick, chptr->topic);
+   /* If the member is delayed-join, show them.  This must not depend on
+    * whether the topic changed: m_topic() has already revealed the member
+    * on the setter's own server, and every server must agree.
+    */
+   member = find_channel_member(sptr, chptr);
+   if (member && IsDelayedJoin(member))
+     RevealDelayedJoin(member);
    if (newtopic)
    {
-     struct Membership *member;
-
-     /* If the member is delayed-join, show them. */
-     member = find_channel_member(sptr, chptr);
-     if (member && IsDelayedJoin(member))
-       RevealDelayedJoin(member);
-
      sendcmdto_channel_butserv_butone(from, CMD_TOPIC, chptr, NULL, 0,
       				       "%H :%s", chptr, chptr->topic);
    }
-- 
2.43.0


From 95779eef9be5260f497a0a7b3b903cf4d317f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:49 +0000
Subject: [PATCH 02/95] fix: do not send a user a second JOIN for a channel it
 is already in

---
 include/send.h | 1 +
 ircd/channel.c | 5 +++--
 ircd/m_burst.c | 2 +-
 ircd/s_user.c  | 2 +-
 ircd/send.c    | 7 ++++---
 5 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/send.h b/include/send.h
index fdf1f97..264ccdc 100644
--- a/include/send.h
+++ b/include/send.h
@@ -117,6 +117,7 @@ extern void sendcmdto_channel_butone(struct Client *from, const char *cmd,
 /* Send JOIN to all local channel users matching or not matching capability flags */
 extern void sendjointo_channel_butserv(struct Client *from,
 				       struct Channel *chptr,
+				       struct Client *one,
 				       capset_t require,
 				       capset_t forbid);
 
diff --git a/ircd/channel.c b/ircd/channel.c
index fb58324..5b22149 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -3702,7 +3702,7 @@ joinbuf_join(struct JoinBuf *jbuf, struct Channel *chan, unsigned int flags)
 
     if (!((chan->mode.mode & MODE_DELJOINS) && !(flags & CHFL_VOICED_OR_OPPED))) {
       /* Send the notification to the channel */
-      sendjointo_channel_butserv(jbuf->jb_source, chan, 0, 0);
+      sendjointo_channel_butserv(jbuf->jb_source, chan, NULL, 0, 0);
       if (cli_user(jbuf->jb_source)->away)
         sendcmdto_capflag_common_channels_butone(jbuf->jb_source, CMD_AWAY, jbuf->jb_connect,
           CAP_AWAYNOTIFY, 0, ":%s", cli_user(jbuf->jb_source)->away);
@@ -3797,7 +3797,8 @@ int IsInvited(struct Client* cptr, const void* chptr)
 void RevealDelayedJoin(struct Membership *member)
 {
   ClearDelayedJoin(member);
-  sendjointo_channel_butserv(member->user, member->channel, 0, 0);
+  /* The member itself was told of its JOIN when it joined. */
+  sendjointo_channel_butserv(member->user, member->channel, member->user, 0, 0);
   if (cli_user(member->user)->away)
     sendcmdto_capflag_channel_butserv_butone(member->user, CMD_AWAY, member->channel,
       NULL, 0, CAP_AWAYNOTIFY, 0, ":%s", cli_user(member->user)->away);
diff --git a/ircd/m_burst.c b/ircd/m_burst.c
index b4f4b40..9c1a511 100644
--- a/ircd/m_burst.c
+++ b/ircd/m_burst.c
@@ -548,7 +548,7 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 	  {
 	    add_user_to_channel(chptr, acptr, current_mode, oplevel);
 	    if (!(current_mode & CHFL_DELAYED)) {
-	      sendjointo_channel_butserv(acptr, chptr, 0, 0);
+	      sendjointo_channel_butserv(acptr, chptr, NULL, 0, 0);
               if (cli_user(acptr)->away)
                 sendcmdto_capflag_channel_butserv_butone(acptr, CMD_AWAY, chptr,
                   NULL, 0, CAP_AWAYNOTIFY, 0, ":%s", cli_user(acptr)->away);
diff --git a/ircd/s_user.c b/ircd/s_user.c
index 2bdce11..e706fe2 100644
--- a/ircd/s_user.c
+++ b/ircd/s_user.c
@@ -960,7 +960,7 @@ hide_hostmask(struct Client *cptr, unsigned int flag)
     /* Send a JOIN unless the user's join has been delayed. */
     if (!IsDelayedJoin(chan))
     {
-      sendjointo_channel_butserv(cptr, chan->channel, 0, CAP_CHGHOST);
+      sendjointo_channel_butserv(cptr, chan->channel, cptr, 0, CAP_CHGHOST);
       if (cli_user(cptr)->away)
         sendcmdto_capflag_channel_butserv_butone(cptr, CMD_AWAY, chan->channel,
           NULL, 0, CAP_AWAYNOTIFY, CAP_CHGHOST, ":%s", cli_user(cptr)->away);
diff --git a/ircd/send.c b/ircd/send.c
index b2715d4..403d748 100644
--- a/ircd/send.c
+++ b/ircd/send.c
@@ -831,17 +831,18 @@ void sendcmdto_capflag_channel_butserv_butone(struct Client *from, const char *c
  * capability flags.
  * @param[in] from Client joining the channel.
  * @param[in] chptr Channel being joined.
+ * @param[in] one Client to skip (or NULL).
  * @param[in] require Capability mask to send this message for.
  * @param[in] forbid Capability mask to block this message for.
  */
 void sendjointo_channel_butserv(struct Client *from, struct Channel *chptr,
-				capset_t require,
+				struct Client *one, capset_t require,
 				capset_t forbid)
 {
-  sendcmdto_capflag_channel_butserv_butone(from, CMD_JOIN, chptr, NULL,
+  sendcmdto_capflag_channel_butserv_butone(from, CMD_JOIN, chptr, one,
     0, require | CAP_EXTJOIN, forbid, "%H %s :%s", chptr,
     IsAccount(from) ? cli_account(from) : "*", cli_info(from));
-  sendcmdto_capflag_channel_butserv_butone(from, CMD_JOIN, chptr, NULL,
+  sendcmdto_capflag_channel_butserv_butone(from, CMD_JOIN, chptr, one,
     0, require, forbid | CAP_EXTJOIN, "%H", chptr);
 }
 
-- 
2.43.0


From 11be775ca9348a7601562cb1352068316f596926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:49 +0000
Subject: [PATCH 03/95] fix: clear the limit and keys a channel loses to an
 older BURST

The losing side announced their removal (or not even that, if the BURST
had no modes) but kept them, and kept its own key over the older one if
it sorted first, so that the servers disagreed from then on.
---
 ircd/channel.c | 15 ---------------
 ircd/m_burst.c | 25 ++++++++++++++++++++++++-
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/ircd/channel.c b/ircd/channel.c
index 5b22149..a611644 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -3582,21 +3582,6 @@ mode_parse(struct ModeBuf *mbuf, struct Client *cptr, struct Client *sptr,
     state.chptr->mode.mode = t_mode;
   }
 
-  if (state.flags & MODE_PARSE_WIPEOUT) {
-    if (state.chptr->mode.limit && !(state.done & DONE_LIMIT))
-      modebuf_mode_uint(state.mbuf, MODE_DEL | MODE_LIMIT,
-			state.chptr->mode.limit);
-    if (*state.chptr->mode.key && !(state.done & DONE_KEY_DEL))
-      modebuf_mode_string(state.mbuf, MODE_DEL | MODE_KEY,
-			  state.chptr->mode.key, 0);
-    if (*state.chptr->mode.upass && !(state.done & DONE_UPASS_DEL))
-      modebuf_mode_string(state.mbuf, MODE_DEL | MODE_UPASS,
-			  state.chptr->mode.upass, 0);
-    if (*state.chptr->mode.apass && !(state.done & DONE_APASS_DEL))
-      modebuf_mode_string(state.mbuf, MODE_DEL | MODE_APASS,
-			  state.chptr->mode.apass, 0);
-  }
-
   if (state.done & DONE_BANCLEAN) /* process bans */
     mode_process_bans(&state);
 
diff --git a/ircd/m_burst.c b/ircd/m_burst.c
index 9c1a511..315c3a1 100644
--- a/ircd/m_burst.c
+++ b/ircd/m_burst.c
@@ -343,7 +343,30 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
     modebuf_mode(mbuf, MODE_DEL | chptr->mode.mode); /* wipeout modes */
     chptr->mode.mode &= MODE_BURSTADDED | MODE_WASDELJOINS;
 
-    /* wipeout any limit and keys that are set */
+    /* wipeout any limit and keys that are set; the modebuf needs its
+     * own copies of the strings, as the burst may set new ones */
+    if (chptr->mode.limit) {
+      modebuf_mode_uint(mbuf, MODE_DEL | MODE_LIMIT, chptr->mode.limit);
+      chptr->mode.limit = 0;
+    }
+    if (*chptr->mode.key) {
+      char *dup;
+      DupString(dup, chptr->mode.key);
+      modebuf_mode_string(mbuf, MODE_DEL | MODE_KEY, dup, 1);
+      *chptr->mode.key = '\0';
+    }
+    if (*chptr->mode.upass) {
+      char *dup;
+      DupString(dup, chptr->mode.upass);
+      modebuf_mode_string(mbuf, MODE_DEL | MODE_UPASS, dup, 1);
+      *chptr->mode.upass = '\0';
+    }
+    if (*chptr->mode.apass) {
+      char *dup;
+      DupString(dup, chptr->mode.apass);
+      modebuf_mode_string(mbuf, MODE_DEL | MODE_APASS, dup, 1);
+      *chptr->mode.apass = '\0';
+    }
     parse_flags |= (MODE_PARSE_SET | MODE_PARSE_WIPEOUT);
 
     /* mark bans for wipeout */
-- 
2.43.0


From 1f7eef2ccc1b67da036ce320d6dad3593719a7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:39 +0000
Subject: [PATCH 04/95] fix: propagate every global jupe change

A redundant (de)activation updated the record's timestamp on the server
that saw it first only, and a global deactivation was not passed on by a
server that had the jupe deactivated locally.
---
 ircd/jupe.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ircd/jupe.c b/ircd/jupe.c
index 243ae62..2f7ffa4 100644
--- a/ircd/jupe.c
+++ b/ircd/jupe.c
@@ -204,8 +204,11 @@ jupe_activate(struct Client *cptr, struct Client *sptr, struct Jupe *jupe,
       jupe->ju_lastmod = lastmod;
   }
 
-  if ((saveflags & JUPE_ACTMASK) == JUPE_ACTIVE)
+  if ((saveflags & JUPE_ACTMASK) == JUPE_ACTIVE) {
+    if (!(flags & JUPE_LOCAL)) /* others must learn of the new lastmod */
+      propagate_jupe(cptr, sptr, jupe);
     return 0; /* was active to begin with */
+  }
 
   /* Inform ops and log it */
   sendto_opmask_butone(0, SNO_NETWORK, "%s activating JUPE for %s, expiring "
@@ -256,8 +259,11 @@ jupe_deactivate(struct Client *cptr, struct Client *sptr, struct Jupe *jupe,
 	jupe->ju_lastmod = lastmod;
     }
 
-    if ((saveflags & JUPE_ACTMASK) != JUPE_ACTIVE)
+    if ((saveflags & JUPE_ACTMASK) != JUPE_ACTIVE) {
+      if (!(flags & JUPE_LOCAL)) /* it may be active elsewhere */
+	propagate_jupe(cptr, sptr, jupe);
       return 0; /* was inactive to begin with */
+    }
   }
 
   /* Inform ops and log it */
-- 
2.43.0


From e2d6c4ef9451bee2698efda3b19f27140fc16fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:28 +0000
Subject: [PATCH 05/95] fix: clear the zombies left by two KICKs of a user that
 crossed

The second KICK found nobody to remove at the user's own server and was
not acknowledged, so the servers it had passed through kept the user as a
zombie, and told new links it was a member.
---
 ircd/m_kick.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ircd/m_kick.c b/ircd/m_kick.c
index 8fd358a..0f326c4 100644
--- a/ircd/m_kick.c
+++ b/ircd/m_kick.c
@@ -274,6 +274,11 @@ int ms_kick(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
       }
 
       make_zombie(member, who, cptr, sptr, chptr);
+    } else if (MyUser(who)) {
+      /* Already gone, e.g. by a KICK that crossed this one: the servers
+       * this one came through have made it a zombie, so clear that.
+       */
+      sendcmdto_one(who, CMD_PART, cptr, "%H", chptr);
     }
   }
 
-- 
2.43.0


From 467ecf7ae429a96e1253ce1249cd403d93d62a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:46 +0000
Subject: [PATCH 06/95] fix: let +s win when equally old channels with +p and
 +s merge

Each side took over the other side's mode, so they stayed different.
---
 ircd/channel.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ircd/channel.c b/ircd/channel.c
index a611644..e1244e7 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -3337,6 +3337,12 @@ mode_parse_mode(struct ParseState *state, int *flag_p)
       MyUser(state->sptr))
     return;
 
+  /* When two equally old channels merge, +s must win over +p on both
+   * sides, rather than each side taking over the other's mode. */
+  if ((state->flags & MODE_PARSE_BURST) && flag_p[0] == MODE_PRIVATE &&
+      (state->chptr->mode.mode & MODE_SECRET))
+    return;
+
   if (state->dir == MODE_ADD) {
     state->add |= flag_p[0];
     state->del &= ~flag_p[0];
-- 
2.43.0


From b1c38f80ab9fbec5f41127195c138356f4fe47a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:22 +0000
Subject: [PATCH 07/95] fix: pass on a ban that both an older BURST and the
 losing channel have

Servers further on wiped their copy of it, because it was left out of the
BURST they were sent.
---
 ircd/m_burst.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ircd/m_burst.c b/ircd/m_burst.c
index 315c3a1..1af5a77 100644
--- a/ircd/m_burst.c
+++ b/ircd/m_burst.c
@@ -403,6 +403,8 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 
 	for (ban = ircd_strtok(&p, banlist, " "); ban;
 	     ban = ircd_strtok(&p, 0, " ")) {
+	  int kept = 0;
+
 	  ban = collapse(pretty_mask(ban));
 
 	    /*
@@ -415,9 +417,14 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 	     */
 	  for (lp = chptr->banlist; lp; lp = lp->next) {
 	    if (!ircd_strcmp(lp->banstr, ban)) {
-	      ban = 0; /* don't add ban */
+	      /* new ban already existed; don't even repropagate, unless
+	       * servers behind us are about to wipe it out as well */
+	      if (lp->flags & BAN_BURST_WIPEOUT)
+		kept = 1;
+	      else
+		ban = 0; /* don't add ban */
 	      lp->flags &= ~BAN_BURST_WIPEOUT; /* not wiping out */
-	      break; /* new ban already existed; don't even repropagate */
+	      break;
 	    } else if (!(lp->flags & BAN_BURST_WIPEOUT) &&
 		       !mmatch(lp->banstr, ban)) {
 	      ban = 0; /* don't add ban unless wiping out bans */
@@ -440,6 +447,9 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 	    for (ptr = ban; *ptr; ptr++) /* add ban to buffer */
 	      banstr[banpos++] = *ptr;
 
+	    if (kept)
+	      continue; /* it is in our list already */
+
 	    newban = make_ban(ban); /* create new ban */
             strcpy(newban->who, "*");
 	    newban->when = TStime();
-- 
2.43.0


From 8f34bb3d3c54957f14783ef48784a408a3629b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:03 +0000
Subject: [PATCH 08/95] fix: do not announce -d for a channel that keeps its
 hidden members

Losing to an older channel keeps the +d state, so announcing its removal
told members something untrue.
---
 ircd/m_burst.c | 2 +-
 ircd/m_join.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ircd/m_burst.c b/ircd/m_burst.c
index 1af5a77..fdcb9c5 100644
--- a/ircd/m_burst.c
+++ b/ircd/m_burst.c
@@ -340,7 +340,7 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 
     modebuf_init(mbuf = &modebuf, &me, cptr, chptr,
 		 MODEBUF_DEST_CHANNEL | MODEBUF_DEST_NOKEY);
-    modebuf_mode(mbuf, MODE_DEL | chptr->mode.mode); /* wipeout modes */
+    modebuf_mode(mbuf, MODE_DEL | (chptr->mode.mode & ~MODE_WASDELJOINS)); /* wipeout modes */
     chptr->mode.mode &= MODE_BURSTADDED | MODE_WASDELJOINS;
 
     /* wipeout any limit and keys that are set; the modebuf needs its
diff --git a/ircd/m_join.c b/ircd/m_join.c
index 7a925e6..3df1a15 100644
--- a/ircd/m_join.c
+++ b/ircd/m_join.c
@@ -412,7 +412,7 @@ int ms_join(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
         /* Wipe out the current modes on the channel. */
         modebuf_init(&mbuf, sptr, cptr, chptr, MODEBUF_DEST_CHANNEL | MODEBUF_DEST_HACK3);
 
-        modebuf_mode(&mbuf, MODE_DEL | chptr->mode.mode);
+        modebuf_mode(&mbuf, MODE_DEL | (chptr->mode.mode & ~MODE_WASDELJOINS));
         chptr->mode.mode &= MODE_BURSTADDED | MODE_WASDELJOINS;
 
         if (chptr->mode.limit) {
-- 
2.43.0


From 64e19b9888a7a013bd4905219984e2ae071e5455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:03 +0000
Subject: [PATCH 09/95] fix: do not reveal a delayed-join member by its net
 rider kick

---
 ircd/m_burst.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ircd/m_burst.c b/ircd/m_burst.c
index fdcb9c5..afe6fd4 100644
--- a/ircd/m_burst.c
+++ b/ircd/m_burst.c
@@ -315,7 +315,10 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
               && (!(check_modes & MODE_TLSONLY) || IsTLS(member->user)))
             continue;
           sendcmdto_serv_butone(&me, CMD_KICK, NULL, "%H %C :Net Rider", chptr, member->user);
-          sendcmdto_channel_butserv_butone(&his, CMD_KICK, chptr, NULL, 0, "%H %C :Net Rider", chptr, member->user);
+          if (IsDelayedJoin(member)) /* nobody else knows it is here */
+            sendcmdto_one(&his, CMD_KICK, member->user, "%H %C :Net Rider", chptr, member->user);
+          else
+            sendcmdto_channel_butserv_butone(&his, CMD_KICK, chptr, NULL, 0, "%H %C :Net Rider", chptr, member->user);
           make_zombie(member, member->user, &me, &me, chptr);
         }
       }
-- 
2.43.0


From 44c8f6f11812cee6627ad1ec896a722ea419f27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:23 +0000
Subject: [PATCH 10/95] fix: release the auth request of an accepted server
 connection only once

---
 ircd/s_auth.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index 20ec3b3..6ac1ba1 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -1290,15 +1290,17 @@ void start_auth(struct Client* client)
     }
   }
 
-  /* Start DNS and ident queries, except websocket connections not having a handshake. */
-  if (!IsWebsocketPort(client) || IsWebsocket(client))
-    start_dns_ident(client);
-
   /* Add client to GlobalClientList. */
   add_client_to_list(client);
 
-  /* Check which auth events remain pending. */
-  check_auth_finished(auth, 0);
+  /* Start DNS and ident queries, except websocket connections not having a
+   * handshake.  start_dns_ident() checks which auth events remain pending,
+   * and releases the auth request if none do.
+   */
+  if (!IsWebsocketPort(client) || IsWebsocket(client))
+    start_dns_ident(client);
+  else
+    check_auth_finished(auth, 0);
 }
 
 /** Start DNS and ident queries for a client, if appropriate.
-- 
2.43.0


From b9f955073fa0b7132211d8c1f8a391bfb9fe5669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:30 +0000
Subject: [PATCH 11/95] fix: tell a channel's members of a topic change that
 only changes case

---
 ircd/m_topic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ircd/m_topic.c b/ircd/m_topic.c
index 16cec22..62861f7 100644
--- a/ircd/m_topic.c
+++ b/ircd/m_topic.c
@@ -64,7 +64,7 @@ static void do_settopic(struct Client *sptr, struct Client *cptr,
     * send it to all the clients to save bandwidth.  We still send
     * it to other servers as they may have split and lost the topic.
     */
-   newtopic=ircd_strncmp(chptr->topic,topic,TOPICLEN)!=0;
+   newtopic=strncmp(chptr->topic,topic,TOPICLEN)!=0;
    /* setting a topic */
    ircd_strncpy(chptr->topic, topic, TOPICLEN);
    ircd_strncpy(chptr->topic_nick, who ? who : cli_name(from), NICKLEN);
-- 
2.43.0


From 1fdbf6b561f88684f2b4c41ef85095f3d9acfc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:12 +0000
Subject: [PATCH 12/95] fix: announce the keys a JOIN with an older timestamp
 removes

ms_join() emptied the channel's key and passwords before the mode buffer
that refers to them was flushed, so the MODE message it sent carried an
empty parameter.
---
 ircd/m_join.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ircd/m_join.c b/ircd/m_join.c
index 3df1a15..930b601 100644
--- a/ircd/m_join.c
+++ b/ircd/m_join.c
@@ -30,6 +30,7 @@
 #include "gline.h"
 #include "hash.h"
 #include "ircd.h"
+#include "ircd_alloc.h"
 #include "ircd_chattr.h"
 #include "ircd_features.h"
 #include "ircd_log.h"
@@ -421,17 +422,23 @@ int ms_join(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
         }
 
         if (chptr->mode.key[0]) {
-          modebuf_mode_string(&mbuf, MODE_DEL | MODE_KEY, chptr->mode.key, 0);
+          char *dup; /* the modebuf is flushed after this is emptied */
+          DupString(dup, chptr->mode.key);
+          modebuf_mode_string(&mbuf, MODE_DEL | MODE_KEY, dup, 1);
           chptr->mode.key[0] = '\0';
         }
 
         if (chptr->mode.upass[0]) {
-          modebuf_mode_string(&mbuf, MODE_DEL | MODE_UPASS, chptr->mode.upass, 0);
+          char *dup; /* the modebuf is flushed after this is emptied */
+          DupString(dup, chptr->mode.upass);
+          modebuf_mode_string(&mbuf, MODE_DEL | MODE_UPASS, dup, 1);
           chptr->mode.upass[0] = '\0';
         }
 
         if (chptr->mode.apass[0]) {
-          modebuf_mode_string(&mbuf, MODE_DEL | MODE_APASS, chptr->mode.apass, 0);
+          char *dup; /* the modebuf is flushed after this is emptied */
+          DupString(dup, chptr->mode.apass);
+          modebuf_mode_string(&mbuf, MODE_DEL | MODE_APASS, dup, 1);
           chptr->mode.apass[0] = '\0';
         }
 
-- 
2.43.0


From 71a508450719d6f37eee503252408004679c0a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 13/95] fix: do not re-announce AWAY outside the channel an
 away user joins

A join while away sent the away-notify AWAY to members of every channel
the user is in, telling them that it had just joined some (perhaps hidden)
channel.
---
 ircd/channel.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ircd/channel.c b/ircd/channel.c
index e1244e7..362dabd 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -3695,8 +3695,9 @@ joinbuf_join(struct JoinBuf *jbuf, struct Channel *chan, unsigned int flags)
       /* Send the notification to the channel */
       sendjointo_channel_butserv(jbuf->jb_source, chan, NULL, 0, 0);
       if (cli_user(jbuf->jb_source)->away)
-        sendcmdto_capflag_common_channels_butone(jbuf->jb_source, CMD_AWAY, jbuf->jb_connect,
-          CAP_AWAYNOTIFY, 0, ":%s", cli_user(jbuf->jb_source)->away);
+        sendcmdto_capflag_channel_butserv_butone(jbuf->jb_source, CMD_AWAY, chan,
+          jbuf->jb_connect, 0, CAP_AWAYNOTIFY, 0, ":%s",
+          cli_user(jbuf->jb_source)->away);
 
       /* send an op, too, if needed */
       if (flags & CHFL_CHANOP && (oplevel < MAXOPLEVEL || !MyUser(jbuf->jb_source)))
-- 
2.43.0


From 0e1672facd4e9cce44d914c197bb25a3be04861b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:04 +0000
Subject: [PATCH 14/95] fix: require the local_jupe privilege for JUPE without
 a target

mo_jupe() checked PRIV_LOCAL_JUPE when the target named this server, but
not for the short form (JUPE +server expire :reason), so an operator with
neither jupe privilege could create and change local jupes.
---
 ircd/m_jupe.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/m_jupe.c b/ircd/m_jupe.c
index 51f219f..da83b84 100644
--- a/ircd/m_jupe.c
+++ b/ircd/m_jupe.c
@@ -239,7 +239,8 @@ int mo_jupe(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
       flags |= JUPE_LOCAL;
     } else if (!HasPriv(sptr, PRIV_JUPE))
       return send_reply(sptr, ERR_NOPRIVILEGES);
-  }
+  } else if (!HasPriv(sptr, PRIV_LOCAL_JUPE))
+    return send_reply(sptr, ERR_NOPRIVILEGES);
 
   ajupe = jupe_find(server);
 
-- 
2.43.0


From c3ec14c77b6c015a6c89d33dd971a0b4f2aa13fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:53 +0000
Subject: [PATCH 15/95] fix: require the badchan privilege for channel G-lines
 beyond this server

The badchan privilege (doc/example.conf: "can issue Gchans to other
servers", not granted by default) was never checked, so every operator
with the gline privilege could ban channels network-wide.
---
 ircd/m_gline.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/ircd/m_gline.c b/ircd/m_gline.c
index 1c4b544..1061e4a 100644
--- a/ircd/m_gline.c
+++ b/ircd/m_gline.c
@@ -367,6 +367,18 @@ ms_gline(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 		   flags | ((action == GLINE_ACTIVATE) ? GLINE_ACTIVE : 0));
 }
 
+/** Check whether an operator may issue a G-line beyond this server.
+ * @param[in] sptr Operator issuing the G-line.
+ * @param[in] mask G-line mask, without action prefix.
+ * @return Non-zero if \a sptr has the necessary privileges.
+ */
+static int
+may_global_gline(struct Client *sptr, const char *mask)
+{
+  return HasPriv(sptr, PRIV_GLINE)
+      && ((*mask != '#' && *mask != '&') || HasPriv(sptr, PRIV_BADCHAN));
+}
+
 /*
  * mo_gline - oper message handler
  *
@@ -505,7 +517,7 @@ mo_gline(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
     /* check for permissions... */
     if (!feature_bool(FEAT_CONFIG_OPERCMDS))
       return send_reply(sptr, ERR_DISABLED, "GLINE");
-    else if (!HasPriv(sptr, PRIV_GLINE))
+    else if (!may_global_gline(sptr, mask))
       return send_reply(sptr, ERR_NOPRIVILEGES);
 
     Debug((DEBUG_DEBUG, "I am forwarding a local change to a global gline "
@@ -549,7 +561,7 @@ mo_gline(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
       /* check for permissions... */
       if (!feature_bool(FEAT_CONFIG_OPERCMDS))
 	return send_reply(sptr, ERR_DISABLED, "GLINE");
-      else if (!HasPriv(sptr, PRIV_GLINE))
+      else if (!may_global_gline(sptr, mask))
 	return send_reply(sptr, ERR_NOPRIVILEGES);
 
       Debug((DEBUG_DEBUG, "I am forwarding a local G-line to a remote "
@@ -612,7 +624,7 @@ mo_gline(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
   } else { /* global privileges required */
     if (!feature_bool(FEAT_CONFIG_OPERCMDS))
       return send_reply(sptr, ERR_DISABLED, "GLINE");
-    else if (!HasPriv(sptr, PRIV_GLINE))
+    else if (!may_global_gline(sptr, mask))
       return send_reply(sptr, ERR_NOPRIVILEGES);
   }
 
-- 
2.43.0


From dfcc6ee4f3b67f80a5d03a66921f715c55534470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:42 +0000
Subject: [PATCH 16/95] fix: keep every group when printing IPv6 addresses

ircd_ntoa_r() did not reset its count of consecutive zero groups after a
run that was not longer than the longest so far, so that the lengths of
separate runs added up and "::" replaced groups that are not zero:
1:0:2:0:3:0:4:5 was printed as 1:0:2:0::4:5.
---
 ircd/ircd_string.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ircd/ircd_string.c b/ircd/ircd_string.c
index cbcedc5..ccfc4ad 100644
--- a/ircd/ircd_string.c
+++ b/ircd/ircd_string.c
@@ -413,9 +413,11 @@ const char* ircd_ntoa_r(char* buf, const struct irc_in_addr* in)
       for (max_start = ii = 1, max_zeros = curr_zeros = 0; ii < 8; ++ii) {
         if (!in->in6_16[ii])
           curr_zeros++;
-        else if (curr_zeros > max_zeros) {
-          max_start = ii - curr_zeros;
-          max_zeros = curr_zeros;
+        else {
+          if (curr_zeros > max_zeros) {
+            max_start = ii - curr_zeros;
+            max_zeros = curr_zeros;
+          }
           curr_zeros = 0;
         }
       }
-- 
2.43.0


From 9249115231c33e190e91ccbeed0cf6be2b46431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:42 +0000
Subject: [PATCH 17/95] fix: backtrack to the escape in match(), and do not run
 past a trailing backslash

After a '*' followed by an escaped character, match() backtracked to the
escaped character itself, so that an escaped '*' or '?' became a wildcard
(*\*a matched x*bca).  A mask ending in a backslash matched the terminating
zero bytes of both strings and went on reading behind them.
---
 ircd/match.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ircd/match.c b/ircd/match.c
index cb3db43..b680c81 100644
--- a/ircd/match.c
+++ b/ircd/match.c
@@ -207,8 +207,10 @@ int match(const char *mask, const char *name)
   case '\\':
     m++;
     /* allow escaping to force capitalization */
-    if (*m++ != *n++)
+    if (!*m || *m != *n)
       goto backtrack;
+    m++;
+    n++;
     break;
   case '*': case '?':
     for (star_p = 0; ; m++) {
@@ -223,11 +225,11 @@ int match(const char *mask, const char *name)
       if (!*m)
         return 0;
       else if (*m == '\\') {
-        m_tmp = ++m;
-        if (!*m)
+        m_tmp = m; /* backtrack to the escape, not to the escaped character */
+        if (!m[1])
           return 1;
-        for (n_tmp = n; *n && *n != *m; n++) ;
-        if (!*n || *n++ != *m++)
+        for (n_tmp = n; *n && *n != m[1]; n++) ;
+        if (!*n)
           return 1;
       } else {
         m_tmp = m;
-- 
2.43.0


From b5faf0d013d8d4e45be83f9860d030fc19210848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:13 +0000
Subject: [PATCH 18/95] fix: iptobase64() lost part of an IPv6 address with
 several short runs of zeros

---
 ircd/numnicks.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ircd/numnicks.c b/ircd/numnicks.c
index 01dc2ee..97723d5 100644
--- a/ircd/numnicks.c
+++ b/ircd/numnicks.c
@@ -466,16 +466,17 @@ const char* iptobase64(char* buf, const struct irc_in_addr* addr, unsigned int c
     for (max_start = zero = ii, max_zeros = curr_zeros = 0; ii < 8; ++ii) {
       if (!addr->in6_16[ii])
         curr_zeros++;
-      else if (curr_zeros > max_zeros) {
-        max_start = ii - curr_zeros;
-        max_zeros = curr_zeros;
+      else {
+        if (curr_zeros > max_zeros) {
+          max_start = ii - curr_zeros;
+          max_zeros = curr_zeros;
+        }
         curr_zeros = 0;
       }
     }
     if (curr_zeros > max_zeros) {
       max_start = ii - curr_zeros;
       max_zeros = curr_zeros;
-      curr_zeros = 0;
     }
     /* Print the rest of the address */
     for (ii = zero; ii < 8; ) {
-- 
2.43.0


From 4f1f319f2807bafdda5470513cf50c6aaa0bb7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 19/95] fix: parse IPv6 addresses with an embedded IPv4 address
 after a '::' in the middle

---
 ircd/ircd_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ircd/ircd_string.c b/ircd/ircd_string.c
index ccfc4ad..affbc88 100644
--- a/ircd/ircd_string.c
+++ b/ircd/ircd_string.c
@@ -583,7 +583,7 @@ ipmask_parse(const char *input, struct irc_in_addr *ip, unsigned char *pbits)
         if (ii == 8)
             return 0;
         colon = ii;
-        pos++;
+        part_start = input + ++pos;
       }
       break;
     case '.': {
-- 
2.43.0


From 45522a9b4f5d32922f2519705febd45c6fb9dff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 20/95] fix: %0Nd of a negative or signed number printed one
 character too many

---
 ircd/ircd_snprintf.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ircd/ircd_snprintf.c b/ircd/ircd_snprintf.c
index 282fdc7..9603e30 100644
--- a/ircd/ircd_snprintf.c
+++ b/ircd/ircd_snprintf.c
@@ -1877,19 +1877,19 @@ doprintf(struct Client *dest, struct BufData *buf_p, const char *fmt,
 	  elen = 2; /* account for the length of 0x */
       }
 
+      /* If there's a sign flag, account for it */
+      if (fld_s.flags & (FLAG_PLUS | FLAG_SPACE | INFO_NEGATIVE))
+	elen++;
+
       if (fld_s.prec < 0) { /* default precision is 1 */
 	if ((fld_s.flags & (FLAG_MINUS | FLAG_ZERO)) == FLAG_ZERO &&
 	    fld_s.width) {
-	  fld_s.prec = fld_s.width - elen;
+	  fld_s.prec = fld_s.width > elen ? fld_s.width - elen : 1;
 	  fld_s.width = 0;
 	} else
 	  fld_s.prec = 1;
       }
 
-      /* If there's a sign flag, account for it */
-      if (fld_s.flags & (FLAG_PLUS | FLAG_SPACE | INFO_NEGATIVE))
-	elen++;
-
       if (fld_s.base < 0) { /* non-binary base flagged by negative */
 	fld_s.base = -fld_s.base; /* negate it... */
 
-- 
2.43.0


From 25a40b06f8007f4ed73d4e780450f9a5aea175f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:19 +0000
Subject: [PATCH 21/95] fix: send WebSocket pongs and closes through the sendQ,
 not into the middle of a frame

---
 ircd/websocket.c | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/ircd/websocket.c b/ircd/websocket.c
index 16e73f4..6dd4987 100644
--- a/ircd/websocket.c
+++ b/ircd/websocket.c
@@ -65,32 +65,28 @@ static int websocket_send_handshake(struct Client *cptr, const char *accept_key,
 static void trim_http_field(char *str);
 static int websocket_apply_client_ip(struct Client *cptr, const char *ip);
 
-/** Write raw octets to a WebSocket client (TLS-aware, no IRC/WS framing). */
+/** Write raw octets to a WebSocket client (no IRC/WS framing).
+ * They go through the sendQ (and are flushed at once if the socket allows),
+ * so that they can neither land inside a frame that has only been written in
+ * part, nor be cut short themselves.
+ */
 static int websocket_write_raw(struct Client *cptr, const void *data, size_t len)
 {
   struct MsgBuf *mb;
-  unsigned int count;
 
   if (!cptr || len == 0 || len > UINT_MAX)
     return -1;
   if (IsNegotiatingTLS(cptr))
     return -1;
 
-  if (IsTLS(cptr) && s_tls(&cli_socket(cptr))) {
-    mb = msgq_raw_alloc(cptr, (unsigned int)len);
-    if (!mb)
-      return -1;
-    memcpy(mb->msg, data, len);
-    mb->length = (unsigned int)len;
-    send_raw_buffer(cptr, mb, 0);
-    msgq_clean(mb);
-    if (IsDead(cptr))
-      return -1;
-    return 0;
-  }
-
-  if (os_send_nonb(cli_fd(cptr), data, (unsigned int)len, &count) != IO_SUCCESS
-      || count != len)
+  mb = msgq_raw_alloc(cptr, (unsigned int)len);
+  if (!mb)
+    return -1;
+  memcpy(mb->msg, data, len);
+  mb->length = (unsigned int)len;
+  send_raw_buffer(cptr, mb, 0);
+  msgq_clean(mb);
+  if (IsDead(cptr))
     return -1;
   return 0;
 }
-- 
2.43.0


From d8be43d00b65c062b502cc85cf544ed9b1daeca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:19 +0000
Subject: [PATCH 22/95] fix: forget a line's tags once it has been processed

---
 ircd/parse.c | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/ircd/parse.c b/ircd/parse.c
index 8fd4472..2ed639b 100644
--- a/ircd/parse.c
+++ b/ircd/parse.c
@@ -889,8 +889,8 @@ int unregister_mapping(struct s_map *map)
  * @return 0 on success, -1 on parse error, or CPTR_KILLED if message
  * handler returns it.
  */
-int
-parse_client(struct Client *cptr, char *buffer, char *bufend)
+static int
+parse_client_line(struct Client *cptr, char *buffer, char *bufend)
 {
   struct Client*  from = cptr;
   char*           ch;
@@ -1048,6 +1048,23 @@ parse_client(struct Client *cptr, char *buffer, char *bufend)
   return (*handler) (cptr, from, i, para);
 }
 
+/** Parse a line of data from a user, and forget its tags afterwards: they live
+ * in the sender's input buffer and belong to this line only.
+ * @param[in] cptr Client that sent the data.
+ * @param[in] buffer Start of input line.
+ * @param[in] bufend End of input line.
+ * @return 0 on success, -1 on parse error, or CPTR_KILLED if message
+ * handler returns it.
+ */
+int
+parse_client(struct Client *cptr, char *buffer, char *bufend)
+{
+  int ret = parse_client_line(cptr, buffer, bufend);
+
+  current_tags = NULL;
+  return ret;
+}
+
 /** Parse a line of data from a server.
  * @param[in] cptr Client that sent the data.
  * @param[in] buffer Start of input line.
@@ -1055,7 +1072,8 @@ parse_client(struct Client *cptr, char *buffer, char *bufend)
  * @return 0 on success, -1 on parse error, or CPTR_KILLED if message
  * handler returns it.
  */
-int parse_server(struct Client *cptr, char *buffer, char *bufend)
+static int
+parse_server_line(struct Client *cptr, char *buffer, char *bufend)
 {
   struct Client*  from = cptr;
   char*           ch = buffer;
@@ -1355,3 +1373,20 @@ int parse_server(struct Client *cptr, char *buffer, char *bufend)
 
   return (*mptr->handlers[cli_handler(cptr)]) (cptr, from, i, para);
 }
+
+/** Parse a line of data from a server, and forget its tags afterwards: they live
+ * in the sender's input buffer and belong to this line only.
+ * @param[in] cptr Client that sent the data.
+ * @param[in] buffer Start of input line.
+ * @param[in] bufend End of input line.
+ * @return 0 on success, -1 on parse error, or CPTR_KILLED if message
+ * handler returns it.
+ */
+int
+parse_server(struct Client *cptr, char *buffer, char *bufend)
+{
+  int ret = parse_server_line(cptr, buffer, bufend);
+
+  current_tags = NULL;
+  return ret;
+}
-- 
2.43.0


From c1a0535c9c116d42bff60efa5c0c4cd29eb7bbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:19 +0000
Subject: [PATCH 23/95] fix: make room for long tagged lines in WebSocket text
 frames

---
 ircd/msgq.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ircd/msgq.c b/ircd/msgq.c
index 44e911d..2534178 100644
--- a/ircd/msgq.c
+++ b/ircd/msgq.c
@@ -42,15 +42,16 @@
 #include <sys/uio.h>	/* struct iovec */
 
 #define MB_BASE_SHIFT	5 /**< Log2 of smallest message body to allocate. */
-#define MB_MAX_SHIFT	13 /**< Log2 of largest message body to allocate. */
+#define MB_MAX_SHIFT	14 /**< Log2 of largest message body to allocate. */
 
 /* The largest wire line we ever build is one message body (BUFSIZE) with an
- * outbound message-tags prefix (OUTBOUND_TAG_MAX) in front, plus a NUL.  The
- * pool's largest bucket must cover it, or make_wire_msgbuf() would drive
- * msgq_alloc() past msgBufs[] and corrupt memory.  This is a compile-time
- * guard so the invariant can never silently regress. */
+ * outbound message-tags prefix (OUTBOUND_TAG_MAX) in front, plus a NUL; in a
+ * WebSocket text frame each byte of it may become three (U+FFFD).  The pool's
+ * largest bucket must cover it, or make_wire_msgbuf() would drive msgq_alloc()
+ * past msgBufs[] and corrupt memory.  This is a compile-time guard so the
+ * invariant can never silently regress. */
 typedef char msgq_pool_covers_tagged_wire[
-    (1 << MB_MAX_SHIFT) >= (OUTBOUND_TAG_MAX + BUFSIZE + 1) ? 1 : -1];
+    (1 << MB_MAX_SHIFT) >= (OUTBOUND_TAG_MAX + BUFSIZE + 2) * 3 + 10 ? 1 : -1];
 
 /** Return allocated length of the buffer of \a buf. */
 #define bufsize(buf)	(1 << (buf)->power)
-- 
2.43.0


From 3cd2708de214202c9ca30ade56b1fb4e855bbbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:19 +0000
Subject: [PATCH 24/95] fix: remove a dead connection at its next event instead
 of spinning on it

---
 ircd/s_bsd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ircd/s_bsd.c b/ircd/s_bsd.c
index 15036f2..d9d3422 100644
--- a/ircd/s_bsd.c
+++ b/ircd/s_bsd.c
@@ -1182,6 +1182,8 @@ static void client_sock_callback(struct Event* ev)
       list_next_channels(cptr);
     Debug((DEBUG_SEND, "Sending queued data to %C", cptr));
     send_queued(cptr);
+    if (IsDead(cptr)) /* do not spin on its events until check_pings() */
+      fallback = cli_info(cptr);
     break;
 
   case ET_READ: /* socket is readable */
@@ -1201,6 +1203,8 @@ static void client_sock_callback(struct Event* ev)
       if (read_packet(cptr, 1) == 0) /* error while reading packet */
         fallback = "EOF from client";
     }
+    else
+      fallback = cli_info(cptr);
     break;
 
   default:
-- 
2.43.0


From 12b629256a632003b8e86406fe707ab160e081ba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:08:33 +0000
Subject: [PATCH 25/95] fix: do not send TAGMSG to clients without message-tags

---
 ircd/send.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ircd/send.c b/ircd/send.c
index 403d748..e29a6e0 100644
--- a/ircd/send.c
+++ b/ircd/send.c
@@ -276,6 +276,18 @@ struct TagSendCache {
   char             prefix[OUTBOUND_TAG_MAX];
 };
 
+/** Check whether a command must not be sent to a client: TAGMSG is only for
+ * local users that negotiated message-tags.
+ * @param[in] to Recipient (a server when relaying to a remote user).
+ * @param[in] tok Short name of command (or NULL).
+ */
+static int
+tagmsg_unwanted(struct Client *to, const char *tok)
+{
+  return tok && MyUser(to) && !CapHas(cli_active(to), CAP_MESSAGE_TAGS)
+    && !strcmp(tok, TOK_TAGMSG);
+}
+
 /** Populate a per-message tag context.  \a tok is the command token (for the
  * S2S @time= decision), or NULL when no command context applies. */
 static void
@@ -512,6 +524,9 @@ void sendcmdto_one(struct Client *from, const char *cmd, const char *tok,
 
   to = cli_from(to);
 
+  if (tagmsg_unwanted(to, tok))
+    return;
+
   vd.vd_format = pattern; /* set up the struct VarData for %v */
   va_start(vd.vd_args, pattern);
 
@@ -994,6 +1009,7 @@ void sendcmdto_channel_butone(struct Client *from, const char *cmd,
         (skip & SKIP_NONOPS && !IsChanOp(member)) ||
         (skip & SKIP_NONVOICES && !IsChanOp(member) && !HasVoice(member)) ||
         (skip & SKIP_BURST && IsBurstOrBurstAck(cli_from(member->user))) ||
+        tagmsg_unwanted(member->user, tok) ||
         cli_fd(cli_from(member->user)) < 0 ||
         cli_sentalong(member->user) == sentalong_marker)
       continue;
@@ -1123,6 +1139,7 @@ void sendcmdto_match_butone(struct Client *from, const char *cmd,
   for (cptr = GlobalClientList; cptr; cptr = cli_next(cptr)) {
     if (!IsRegistered(cptr) || IsServer(cptr) || cli_fd(cli_from(cptr)) < 0 ||
         cli_sentalong(cptr) == sentalong_marker ||
+        tagmsg_unwanted(cptr, tok) ||
         !match_it(from, cptr, to, who))
       continue; /* skip it */
     cli_sentalong(cptr) = sentalong_marker;
-- 
2.43.0


From 448502b32681bc95e11df1e6e3d69197a085564e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:09:46 +0000
Subject: [PATCH 26/95] fix: let the last of several equal message tags win

---
 ircd/msg_tag.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ircd/msg_tag.c b/ircd/msg_tag.c
index bc27084..79c1051 100644
--- a/ircd/msg_tag.c
+++ b/ircd/msg_tag.c
@@ -161,6 +161,18 @@ msg_tag_parse(char *start, char *end)
     }
 
     if (*key) {
+      /* Of repeated keys, only the last occurrence counts. */
+      for (tag = head; tag; tag = tag->next)
+        if (!strcmp(tag->key, key))
+          break;
+      if (tag) {
+        tag->value = val;
+        if (semi >= end)
+          break;
+        p = semi + 1;
+        continue;
+      }
+
       tag = &tag_storage[tag_count++];
       tag->key = key;
       tag->value = val;
-- 
2.43.0


From 16e738e1ff8bbd7c97a0745ae493c31919147260 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:09:46 +0000
Subject: [PATCH 27/95] fix: do not acknowledge every capability to a CAP REQ
 without a list

---
 ircd/m_cap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ircd/m_cap.c b/ircd/m_cap.c
index 4f48c7b..91fb89b 100644
--- a/ircd/m_cap.c
+++ b/ircd/m_cap.c
@@ -201,8 +201,8 @@ send_caplist(struct Client *sptr, capset_t set,
   for (i = 0, loc = 0; i < CAPAB_LIST_LEN; i++) {
     flags = capab_list[i].flags;
 
-    /* If the client has no capabilities set, and this is the LIST subcmd, break. */
-    if (!set && !strcmp(subcmd, "LIST"))
+    /* If there are no capabilities to list or acknowledge, break. */
+    if (!set && !rem && strcmp(subcmd, "LS"))
       break;
 
     /* Check if the capability is enabled in features() */
-- 
2.43.0


From d9469d734d901013c3ec586a2b2e3fcbce29ab38 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:12:30 +0000
Subject: [PATCH 28/95] fix: tell the client with the highest descriptor of CAP
 NEW and DEL too, and list no deleted capability

---
 ircd/m_cap.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ircd/m_cap.c b/ircd/m_cap.c
index 91fb89b..1b5bb1e 100644
--- a/ircd/m_cap.c
+++ b/ircd/m_cap.c
@@ -389,7 +389,7 @@ void cap_new(enum Capab cap)
     return;
   
   /* Iterate through all local clients */
-  for (i = 0; i < HighestFd; i++) {
+  for (i = 0; i <= HighestFd; i++) {
     if (!(acptr = LocalClientArray[i]))
       continue;
       
@@ -431,7 +431,7 @@ void cap_del(enum Capab cap)
   }
   
   /* Iterate through all local clients */
-  for (i = 0; i < HighestFd; i++) {
+  for (i = 0; i <= HighestFd; i++) {
     if (!(acptr = LocalClientArray[i]))
       continue;
       
@@ -444,6 +444,7 @@ void cap_del(enum Capab cap)
 
     /* Disable the capability for this client. */
     CapClr(cli_active(acptr), capab_list[cap_index].cap);
+    CapClr(cli_capab(acptr), capab_list[cap_index].cap);
   }
 }
 
-- 
2.43.0


From eb70d90ac3def649993f091d4d15c89ca8483d78 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:14:14 +0000
Subject: [PATCH 29/95] fix: do not relay the TAGMSG of a client that was told
 it has no such command

---
 ircd/m_tagmsg.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ircd/m_tagmsg.c b/ircd/m_tagmsg.c
index 2ad177a..f35f286 100644
--- a/ircd/m_tagmsg.c
+++ b/ircd/m_tagmsg.c
@@ -30,8 +30,10 @@
 static int
 tagmsg_check_cap(struct Client *sptr)
 {
-  if (!CapHas(cli_active(sptr), CAP_MESSAGE_TAGS))
-    return send_reply(sptr, ERR_UNKNOWNCOMMAND, MSG_TAGMSG);
+  if (!CapHas(cli_active(sptr), CAP_MESSAGE_TAGS)) {
+    send_reply(sptr, ERR_UNKNOWNCOMMAND, MSG_TAGMSG);
+    return 1;
+  }
   return 0;
 }
 
-- 
2.43.0


From 9b064eeafd81e681cd21d75de3d76cefbffe269e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:22:24 +0000
Subject: [PATCH 30/95] fix: tell away-notify clients of users of other servers
 going away and coming back

---
 ircd/m_away.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ircd/m_away.c b/ircd/m_away.c
index a4a7865..cd5857b 100644
--- a/ircd/m_away.c
+++ b/ircd/m_away.c
@@ -187,6 +187,7 @@ int m_away(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
 int ms_away(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
 {
   char* away_message = parv[1];
+  int was_away;
 
   assert(0 != cptr);
   assert(0 != sptr);
@@ -196,10 +197,20 @@ int ms_away(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   if (IsServer(sptr))
     return protocol_violation(sptr,"Server trying to set itself away");
 
+  was_away = cli_user(sptr)->away != 0;
+
   if (user_set_away(cli_user(sptr), away_message))
+  {
     sendcmdto_serv_butone(sptr, CMD_AWAY, cptr, ":%s", away_message);
+    if (!was_away)
+      sendcmdto_capflag_common_channels_butone(sptr, CMD_AWAY, NULL, CAP_AWAYNOTIFY, 0, ":%s", away_message);
+  }
   else
+  {
     sendcmdto_serv_butone(sptr, CMD_AWAY, cptr, "");
+    if (was_away)
+      sendcmdto_capflag_common_channels_butone(sptr, CMD_AWAY, NULL, CAP_AWAYNOTIFY, 0, "");
+  }
   return 0;
 }
 
-- 
2.43.0


From 5f7834b6c0c07300f0cb433fc125a6d2e5d18685 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:49:26 +0000
Subject: [PATCH 31/95] fix: history lengths of zero and one corrupted the
 nickname history

With NICKNAMEHISTORYLENGTH set to 0 the next nick change or quit hit an
assertion, as there is no oldest entry to reclaim.  With a length of 1 (or
when the list was emptied) the list head kept pointing to the reclaimed
entry, which then linked to itself or was used after it had been freed.
---
 ircd/whowas.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ircd/whowas.c b/ircd/whowas.c
index b3cc224..6827421 100644
--- a/ircd/whowas.c
+++ b/ircd/whowas.c
@@ -169,6 +169,8 @@ whowas_clean(struct Whowas *ww)
     ww->wnext->wprev = ww->wprev;
   if (ww->wprev)
     ww->wprev->wnext = ww->wnext;
+  else if (wwList.ww_list == ww)
+    wwList.ww_list = ww->wnext;
 
   if (wwList.ww_tail == ww) /* update tail pointer appropriately */
     wwList.ww_tail = ww->wprev;
@@ -223,6 +225,8 @@ whowas_alloc(void)
   if (wwList.ww_alloc >= feature_int(FEAT_NICKNAMEHISTORYLENGTH)) {
     /* reclaim the oldest whowas entry */
     ww = whowas_clean(wwList.ww_tail);
+    if (!ww)
+      return NULL; /* history length is zero: nothing to reclaim */
   } else {
     /* allocate a new one */
     wwList.ww_alloc++;
-- 
2.43.0


From 3c322fe750b0de884e7a9d86013ba096e783a30c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:01:18 +0000
Subject: [PATCH 32/95] fix: a negative NICKLEN feature let nicknames overflow
 the buffer in m_nick()

SET NICKLEN with a huge value stores -1; the comparison with strlen() is
then unsigned, nothing was cut and strcpy() wrote past nick[].
---
 ircd/m_nick.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ircd/m_nick.c b/ircd/m_nick.c
index 8b62235..ed2fe28 100644
--- a/ircd/m_nick.c
+++ b/ircd/m_nick.c
@@ -146,6 +146,7 @@ int m_nick(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   char           nick[NICKLEN + 2];
   char*          arg;
   char*          s;
+  int            maxlen;
 
   assert(0 != cptr);
   assert(cptr == sptr);
@@ -165,8 +166,11 @@ int m_nick(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
    * garbage
    */
   arg = parv[1];
-  if (strlen(arg) > IRCD_MIN(NICKLEN, feature_int(FEAT_NICKLEN)))
-    arg[IRCD_MIN(NICKLEN, feature_int(FEAT_NICKLEN))] = '\0';
+  maxlen = feature_int(FEAT_NICKLEN);
+  if (maxlen < 0 || maxlen > NICKLEN)
+    maxlen = NICKLEN;
+  if (strlen(arg) > maxlen)
+    arg[maxlen] = '\0';
 
   if ((s = strchr(arg, '~')))
     *s = '\0';
-- 
2.43.0


From 1ab962dec44a7ee23b872899794c174ec775f308 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:01:18 +0000
Subject: [PATCH 33/95] fix: S or M in DEFAULT_LIST_PARAM crashed the server

param_parse() is called without a client for the feature, but the oper-only
letters looked at the client's privileges.
---
 ircd/m_list.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ircd/m_list.c b/ircd/m_list.c
index b43ab15..66e70c1 100644
--- a/ircd/m_list.c
+++ b/ircd/m_list.c
@@ -255,7 +255,7 @@ param_parse(struct Client *sptr, const char *param, struct ListingArgs *args,
 
     case 'S':
     case 's':
-      if (!IsAnOper(sptr) || !HasPriv(sptr, PRIV_LIST_CHAN))
+      if (!sptr || !IsAnOper(sptr) || !HasPriv(sptr, PRIV_LIST_CHAN))
         return show_usage(sptr);
 
       args->flags |= LISTARG_SHOWSECRET;
@@ -267,7 +267,7 @@ param_parse(struct Client *sptr, const char *param, struct ListingArgs *args,
 
     case 'M':
     case 'm':
-      if (!IsAnOper(sptr) || !HasPriv(sptr, PRIV_LIST_CHAN))
+      if (!sptr || !IsAnOper(sptr) || !HasPriv(sptr, PRIV_LIST_CHAN))
         return show_usage(sptr);
 
       args->flags |= LISTARG_SHOWMODES;
-- 
2.43.0


From a238061a7d2f80ad10175a594fae21f9d36547c8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:02:03 +0000
Subject: [PATCH 34/95] fix: modes set on an empty channel survived only on the
 server of the next user to join

When a user joins a channel that is kept although empty (OPLEVELS), other
servers clear its modes on seeing the JOIN, but the user's own server kept
those an operator had set with OPMODE meanwhile.
---
 ircd/m_join.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ircd/m_join.c b/ircd/m_join.c
index 930b601..f128d6f 100644
--- a/ircd/m_join.c
+++ b/ircd/m_join.c
@@ -212,6 +212,12 @@ int m_join(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
         /* Joining a zombie channel (zannel): give ops and increment TS. */
         flags = CHFL_CHANOP;
         chptr->creationtime++;
+        /* Other servers wipe what modes it was given while it was empty
+         * when they see this JOIN, see ms_join(). */
+        chptr->mode.mode &= MODE_BURSTADDED | MODE_WASDELJOINS;
+        chptr->mode.limit = 0;
+        chptr->mode.key[0] = '\0';
+        chptr->mode.upass[0] = '\0';
       } else if (IsInvited(sptr, chptr)) {
         /* Invites bypass these other checks. */
       } else if (chptr->mode.mode & MODE_INVITEONLY)
-- 
2.43.0


From 53dc3fcbd8e5d0addc503a632f41af97a69487ee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:23:43 +0000
Subject: [PATCH 35/95] fix: a full silence list dropped accepted entries and
 read freed ones

When an update exceeded the limit, everything after the last old entry was
cut from the list, including overlapped or later, accepted updates (which
leaked and had no effect although they were confirmed).  Entries overlapped
by a later one of the same command were freed before their flags were read.
---
 ircd/m_silence.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/ircd/m_silence.c b/ircd/m_silence.c
index ce9d4dc..5933a2f 100644
--- a/ircd/m_silence.c
+++ b/ircd/m_silence.c
@@ -133,13 +133,11 @@ forward_silences(struct Client *sptr, char *silences, struct Client *dest)
     maxlength = maxsiles * feature_int(FEAT_AVBANLEN);
     siles = totlength = 0;
     /* Count number of current silences and their total length. */
-    plast = &cli_user(sptr)->silence;
     for (sile = cli_user(sptr)->silence; sile; sile = sile->next) {
       if (sile->flags & (BAN_OVERLAPPED | BAN_ADD | BAN_DEL))
         continue;
       siles++;
       totlength += strlen(sile->banstr);
-      plast = &sile->next;
     }
     for (ii = jj = 0; ii < ac_count; ++ii) {
       sile = accepted[ii];
@@ -149,7 +147,13 @@ forward_silences(struct Client *sptr, char *silences, struct Client *dest)
       if (!(sile->flags & (BAN_OVERLAPPED | BAN_DEL))) {
         slen = strlen(sile->banstr);
         if ((siles >= maxsiles) || (totlength + slen >= maxlength)) {
-          *plast = NULL;
+          /* Take it off the list; others may follow it. */
+          for (plast = &cli_user(sptr)->silence; *plast; plast = &(*plast)->next) {
+            if (*plast == sile) {
+              *plast = sile->next;
+              break;
+            }
+          }
           if (MyUser(sptr))
             send_reply(sptr, ERR_SILELISTFULL, accepted[ii]->banstr);
           free_ban(accepted[ii]);
@@ -158,7 +162,6 @@ forward_silences(struct Client *sptr, char *silences, struct Client *dest)
         /* Update counts. */
         siles++;
         totlength += slen;
-        plast = &sile->next;
       }
       /* Store the update. */
       accepted[jj++] = sile;
@@ -243,6 +246,13 @@ forward_silences(struct Client *sptr, char *silences, struct Client *dest)
     }
   }
 
+  /* Free any silence-deleting updates (they are not on the list). */
+  for (ii = 0; ii < ac_count; ++ii) {
+    if ((accepted[ii]->flags & (BAN_ADD | BAN_DEL)) == BAN_DEL) {
+      free_ban(accepted[ii]);
+    }
+  }
+
   /* Remove overlapped and deleted silences from the user's silence
    * list.  Clear BAN_ADD since we're walking the list anyway.
    */
@@ -256,13 +266,6 @@ forward_silences(struct Client *sptr, char *silences, struct Client *dest)
       plast = &sile->next;
     }
   }
-
-  /* Free any silence-deleting updates. */
-  for (ii = 0; ii < ac_count; ++ii) {
-    if ((accepted[ii]->flags & (BAN_ADD | BAN_DEL)) == BAN_DEL) {
-      free_ban(accepted[ii]);
-    }
-  }
 }
 
 /** Handle a SILENCE command from a local user.
-- 
2.43.0


From cfb488db05fb79a728875b1e6d9479ad4cd58035 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:29:18 +0000
Subject: [PATCH 36/95] hook: IRCD_NO_FREELIST returns freed structures to the
 allocator

Off by default.  Verification builds define it so that AddressSanitizer sees
any use of clients, connections, links, memberships, bans, message buffers,
authorization requests and IP registry entries after their release.
---
 ircd/IPcheck.c |  4 ++++
 ircd/channel.c | 11 +++++++++++
 ircd/list.c    | 21 +++++++++++++++++++++
 ircd/msgq.c    |  7 +++++++
 ircd/s_auth.c  |  4 ++++
 ircd/s_bsd.c   |  4 ++++
 6 files changed, 51 insertions(+)

diff --git a/ircd/IPcheck.c b/ircd/IPcheck.c
index a81246d..567a68f 100644
--- a/ircd/IPcheck.c
+++ b/ircd/IPcheck.c
@@ -217,6 +217,10 @@ static void ip_registry_delete_entry(struct IPRegistryEntry* entry)
 {
   if (entry->target)
     MyFree(entry->target);
+#ifdef IRCD_NO_FREELIST /* verification: make any later use visible */
+  MyFree(entry);
+  return;
+#endif
   entry->next = freeList;
   freeList = entry;
 }
diff --git a/ircd/channel.c b/ircd/channel.c
index 362dabd..296489c 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -202,6 +202,12 @@ make_ban(const char *banstr)
 void
 free_ban(struct Ban *ban)
 {
+#ifdef IRCD_NO_FREELIST /* verification: make any later use visible */
+  MyFree(ban);
+  bans_alloc--;
+  bans_inuse--;
+  return;
+#endif
   ban->next = free_bans;
   free_bans = ban;
   bans_inuse--;
@@ -614,6 +620,11 @@ static int remove_member_from_channel(struct Membership* member)
   /* Check if the channel needs to be updated for TLS */
   CheckChannelTLS(chptr);
 
+#ifdef IRCD_NO_FREELIST /* verification: make any later use visible */
+  MyFree(member);
+  --membershipAllocCount;
+  return sub1_from_channel(chptr);
+#endif
   member->next_member = membershipFreeList;
   membershipFreeList = member;
 
diff --git a/ircd/list.c b/ircd/list.c
index a4ae97a..b4c1581 100644
--- a/ircd/list.c
+++ b/ircd/list.c
@@ -77,6 +77,9 @@ void init_list(void)
   /*
    * pre-allocate MAXCONNECTIONS clients and connections
    */
+#ifdef IRCD_NO_FREELIST
+  return;
+#endif
   for (i = 0; i < MAXCONNECTIONS; ++i) {
     cptr = (struct Client*) MyMalloc(sizeof(struct Client));
     cli_next(cptr) = clientFreeList;
@@ -122,6 +125,12 @@ static void dealloc_client(struct Client* cptr)
 
   --clients.inuse;
 
+#ifdef IRCD_NO_FREELIST /* verification: make any later use visible */
+  cli_magic(cptr) = 0;
+  MyFree(cptr);
+  clients.alloc--;
+  return;
+#endif
   cli_next(cptr) = clientFreeList;
   clientFreeList = cptr;
 
@@ -175,6 +184,12 @@ static void dealloc_connection(struct Connection* con)
 
   --connections.inuse;
 
+#ifdef IRCD_NO_FREELIST /* verification: make any later use visible */
+  con_magic(con) = 0;
+  MyFree(con);
+  connections.alloc--;
+  return;
+#endif
   con_next(con) = connectionFreeList;
   connectionFreeList = con;
 
@@ -448,6 +463,12 @@ struct SLink* make_link(void)
 void free_link(struct SLink* lp)
 {
   if (lp) {
+#ifdef IRCD_NO_FREELIST /* verification: make any later use visible */
+    MyFree(lp);
+    links.alloc--;
+    links.inuse--;
+    return;
+#endif
     lp->next = slinkFreeList;
     slinkFreeList = lp;
     links.inuse--;
diff --git a/ircd/msgq.c b/ircd/msgq.c
index 2534178..1309b8a 100644
--- a/ircd/msgq.c
+++ b/ircd/msgq.c
@@ -518,6 +518,13 @@ msgq_clean(struct MsgBuf *mb)
     if (mb->real && mb->real != mb) /* clean up the real buffer */
       msgq_clean(mb->real);
 
+#ifdef IRCD_NO_FREELIST /* verification: make any later use visible */
+    MQData.msgBufs[mb->power - MB_BASE_SHIFT].used--;
+    MQData.msgBufs[mb->power - MB_BASE_SHIFT].alloc--;
+    MQData.tot_bufsize -= 1 << mb->power;
+    MyFree(mb);
+    return;
+#endif
     mb->next = MQData.msgBufs[mb->power - MB_BASE_SHIFT].free;
     MQData.msgBufs[mb->power - MB_BASE_SHIFT].free = mb;
     MQData.msgBufs[mb->power - MB_BASE_SHIFT].used--;
diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index 6ac1ba1..83b05fe 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -959,6 +959,10 @@ void destroy_auth_request(struct AuthRequest* auth)
     timer_del(&auth->timeout);
 
   cli_auth(auth->client) = NULL;
+#ifdef IRCD_NO_FREELIST /* verification: make any later use visible */
+  MyFree(auth);
+  return;
+#endif
   auth->next = auth_freelist;
   auth_freelist = auth;
 }
diff --git a/ircd/s_bsd.c b/ircd/s_bsd.c
index d9d3422..ffb0c17 100644
--- a/ircd/s_bsd.c
+++ b/ircd/s_bsd.c
@@ -1212,7 +1212,9 @@ static void client_sock_callback(struct Event* ev)
     break;
   }
 
+#ifndef IRCD_NO_FREELIST /* cptr may be free by now */
   assert(0 == cptr || 0 == cli_connect(cptr) || con == cli_connect(cptr));
+#endif
 
   if (fallback) {
     const char* msg = (cli_error(cptr)) ? strerror(cli_error(cptr)) : fallback;
@@ -1260,5 +1262,7 @@ static void client_timer_callback(struct Event* ev)
     read_packet(cptr, 0); /* read_packet will re-add timer if needed */
   }
 
+#ifndef IRCD_NO_FREELIST /* cptr may be free by now */
   assert(0 == cptr || 0 == cli_connect(cptr) || con == cli_connect(cptr));
+#endif
 }
-- 
2.43.0


From 06ca1ead0cfe5fbfe0f1fbb4cfb4322fbdc68c6d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:38:40 +0000
Subject: [PATCH 37/95] fix: ms_nick read a killed client after freeing it

---
 ircd/m_nick.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ircd/m_nick.c b/ircd/m_nick.c
index ed2fe28..79de04a 100644
--- a/ircd/m_nick.c
+++ b/ircd/m_nick.c
@@ -290,6 +290,7 @@ int ms_nick(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   char nick[NICKLEN + 2];
   time_t lastnick = 0;
   int differ = 1;
+  int draw;
   const char *type;
 
   assert(0 != cptr);
@@ -483,6 +484,8 @@ int ms_nick(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
     if (lastnick != cli_lastnick(acptr))
       return 0;
   }
+  /* acptr will be gone below, so remember whether this was a draw. */
+  draw = (lastnick == cli_lastnick(acptr));
   /* Tell acptr why we are killing it. */
   send_reply(acptr, ERR_NICKCOLLISION, nick);
 
@@ -496,7 +499,7 @@ int ms_nick(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
                         type);
   exit_client_msg(cptr, acptr, &me, "Killed (%s (%s))",
                   feature_str(FEAT_HIS_SERVERNAME), type);
-  if (lastnick == cli_lastnick(acptr))
+  if (draw)
     return 0;
   return set_nick_name(cptr, sptr, nick, parc, parv);
 }
-- 
2.43.0


From 7eca7519efc5f7d472c97743e8ea2bb63796577c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:39:10 +0000
Subject: [PATCH 38/95] fix: a user introducing a server crashed the server;
 bogus server names were reported as NULL

---
 ircd/m_server.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ircd/m_server.c b/ircd/m_server.c
index c2c469c..d5a6a49 100644
--- a/ircd/m_server.c
+++ b/ircd/m_server.c
@@ -541,8 +541,8 @@ int mr_server(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   if (!host)
   {
     sendto_opmask_butone(0, SNO_OLDSNO, "Bogus server name (%s) from %s",
-			 host, cli_name(cptr));
-    return exit_client_msg(cptr, cptr, &me, "Bogus server name (%s)", host);
+			 parv[1], cli_name(cptr));
+    return exit_client_msg(cptr, cptr, &me, "Bogus server name (%s)", parv[1]);
   }
 
   if ((ajupe = jupe_find(host)) && JupeIsActive(ajupe))
@@ -710,12 +710,15 @@ int ms_server(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   {
     return need_more_params(sptr, "SERVER");
   }
+  if (!IsServer(sptr))
+    return protocol_violation(cptr, "%s tried to introduce a server",
+                              cli_name(sptr));
   host = clean_servername(parv[1]);
   if (!host)
   {
     sendto_opmask_butone(0, SNO_OLDSNO, "Bogus server name (%s) from %s",
-			 host, cli_name(cptr));
-    return exit_client_msg(cptr, cptr, &me, "Bogus server name (%s)", host);
+			 parv[1], cli_name(cptr));
+    return exit_client_msg(cptr, cptr, &me, "Bogus server name (%s)", parv[1]);
   }
 
   /*
-- 
2.43.0


From f0e8d76349abec0a9003fa7fa897f403b8413957 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:39:36 +0000
Subject: [PATCH 39/95] fix: a malformed address in a NICK overran the buffers
 of base64toip

---
 ircd/numnicks.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ircd/numnicks.c b/ircd/numnicks.c
index 97723d5..e5e7b67 100644
--- a/ircd/numnicks.c
+++ b/ircd/numnicks.c
@@ -510,15 +510,19 @@ void base64toip(const char* input, struct irc_in_addr* addr)
       addr->in6_16[7] = htons(in & 65535);
     }
   } else {
-    unsigned int pos = 0;
+    int pos = 0;
     do {
       if (*input == '_') {
-        unsigned int left;
-        for (left = (25 - strlen(input)) / 3 - pos; left; left--)
-          addr->in6_16[pos++] = 0;
+        /* Skip the zeros; malformed input may not leave room for any. */
+        int left = (25 - (int)strlen(input)) / 3 - pos;
+        if (left > 0)
+          pos += left;
         input++;
       } else {
-        unsigned short accum = convert2n[(unsigned char)*input++];
+        unsigned short accum;
+        if (strlen(input) < 3)
+          break;
+        accum = convert2n[(unsigned char)*input++];
         accum = (accum << NUMNICKLOG) | convert2n[(unsigned char)*input++];
         accum = (accum << NUMNICKLOG) | convert2n[(unsigned char)*input++];
         addr->in6_16[pos++] = ntohs(accum);
-- 
2.43.0


From 58df7af6e094ac57880777093e11fe5b9c2c9030 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:39:59 +0000
Subject: [PATCH 40/95] fix: an empty numeric made base64toint read past the
 string and index beyond the server list

---
 ircd/numnicks.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ircd/numnicks.c b/ircd/numnicks.c
index e5e7b67..0c5fcb3 100644
--- a/ircd/numnicks.c
+++ b/ircd/numnicks.c
@@ -135,7 +135,7 @@ static const unsigned int convert2n[] = {
  */
 unsigned int base64toint(const char* s)
 {
-  unsigned int i = convert2n[(unsigned char) *s++];
+  unsigned int i = 0;
   while (*s) {
     i <<= NUMNICKLOG;
     i += convert2n[(unsigned char) *s++];
@@ -182,6 +182,8 @@ struct Client* FindNServer(const char* numeric)
 {
   unsigned int len = strlen(numeric);
 
+  if (len == 0)
+    return 0;
   if (len < 3) {
     Debug((DEBUG_DEBUG, "FindNServer: %s(%d)", numeric, base64toint(numeric)));
     return server_list[base64toint(numeric)];
-- 
2.43.0


From f991552132fef5f19419710f1667a6221907efb1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:40:24 +0000
Subject: [PATCH 41/95] fix: a BURST with +k and no key crashed the server

---
 ircd/m_burst.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ircd/m_burst.c b/ircd/m_burst.c
index afe6fd4..e152265 100644
--- a/ircd/m_burst.c
+++ b/ircd/m_burst.c
@@ -121,10 +121,14 @@ netride_modes(int parc, char **parv, const char *curr_key)
       result |= MODE_INVITEONLY;
       break;
     case 'k':
+      if (--parc < 1)
+        return -1;
       if (strcmp(curr_key, *++parv))
         result |= MODE_KEY;
       break;
     case 'l':
+      if (--parc < 1)
+        return -1;
       ++parv;
       break;
     case 'r':
-- 
2.43.0


From 7871bd4bcdcd01159e94215ddec071b1ba8fe7d5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:43:35 +0000
Subject: [PATCH 42/95] fix: a discarded mode change left its bans, already out
 of scope, in the channel's ban list

---
 ircd/channel.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/ircd/channel.c b/ircd/channel.c
index 296489c..5e5c7a2 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -3024,6 +3024,26 @@ mode_parse_ban(struct ParseState *state, int *flag_p)
   apply_ban(&state->chptr->banlist, newban, 0);
 }
 
+/** Forget the ban changes parsed so far without applying them.
+ * The bans to be added are part of the parse state and must not stay in the
+ * channel's list when that state goes out of scope.
+ * @param[in,out] state State of the mode parser.
+ */
+static void
+mode_discard_bans(struct ParseState *state)
+{
+  struct Ban **ban_p;
+
+  for (ban_p = &state->chptr->banlist; *ban_p; ) {
+    if (*ban_p >= state->banlist && *ban_p < state->banlist + MAXPARA)
+      *ban_p = (*ban_p)->next;
+    else {
+      (*ban_p)->flags &= ~(BAN_ADD | BAN_DEL | BAN_OVERLAPPED);
+      ban_p = &(*ban_p)->next;
+    }
+  }
+}
+
 /*
  * This is the bottom half of the ban processor
  */
@@ -3548,6 +3568,8 @@ mode_parse(struct ModeBuf *mbuf, struct Client *cptr, struct Client *sptr,
             state.mbuf->mb_add = 0;
             state.mbuf->mb_rem = 0;
             state.mbuf->mb_count = 0;
+            if (state.done & DONE_BANCLEAN)
+              mode_discard_bans(&state);
             return state.args_used;
           } else {
             /* Server is desynced; bounce the mode and deop the source
@@ -3575,8 +3597,11 @@ mode_parse(struct ModeBuf *mbuf, struct Client *cptr, struct Client *sptr,
    * the rest of the function finishes building resultant MODEs; if the
    * origin isn't a member or an oper, skip it.
    */
-  if (!state.mbuf || state.flags & (MODE_PARSE_NOTOPER | MODE_PARSE_NOTMEMBER))
+  if (!state.mbuf || state.flags & (MODE_PARSE_NOTOPER | MODE_PARSE_NOTMEMBER)) {
+    if (state.done & DONE_BANCLEAN)
+      mode_discard_bans(&state);
     return state.args_used; /* tell our parent how many args we gobbled */
+  }
 
   t_mode = state.chptr->mode.mode;
 
-- 
2.43.0


From 54eebfda61ec29ae2a89cc21d19cbd0c3774a9ca Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:43:35 +0000
Subject: [PATCH 43/95] fix: incomplete ban masks in a BURST could overflow the
 buffer for passing them on

---
 ircd/m_burst.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ircd/m_burst.c b/ircd/m_burst.c
index e152265..c24e3ae 100644
--- a/ircd/m_burst.c
+++ b/ircd/m_burst.c
@@ -444,6 +444,13 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 	  }
 
 	  if (ban) { /* add the new ban to the end of the list */
+	    /* Completing masks may have made the list too long to pass on. */
+	    if (banpos + strlen(ban) + 4 > sizeof(banstr)) {
+	      protocol_violation(sptr, "Too many bans in burst of %s",
+				 chptr->chname);
+	      break;
+	    }
+
 	    /* Build ban buffer */
 	    if (!banpos) {
 	      banstr[banpos++] = ' ';
-- 
2.43.0


From dd61e30a60985ede733559634468cdf767a6099b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:45:32 +0000
Subject: [PATCH 44/95] fix: malformed numerics of new users and servers
 corrupted the numeric tables

---
 ircd/m_nick.c   |  8 ++++++++
 ircd/m_server.c | 10 ++++++++++
 2 files changed, 18 insertions(+)

diff --git a/ircd/m_nick.c b/ircd/m_nick.c
index 79de04a..0e9f758 100644
--- a/ircd/m_nick.c
+++ b/ircd/m_nick.c
@@ -312,6 +312,14 @@ int ms_nick(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
 
   if (IsServer(sptr))
   {
+    /* A server can only introduce its own users. */
+    const char *numeric = parv[parc - 2];
+    size_t len = strlen(numeric), slen = strlen(cli_yxx(sptr));
+    if ((len != 5 && len != 3) || len != slen + (slen == 2 ? 3 : 2) ||
+        strncmp(numeric, cli_yxx(sptr), slen))
+      return protocol_violation(cptr, "%s introduced %s with the numeric %s",
+                                cli_name(sptr), nick, numeric);
+
     lastnick = atoi(parv[3]);
     if (lastnick > OLDEST_TS && !IsBurstOrBurstAck(sptr)) 
       cli_serv(sptr)->lag = TStime() - lastnick;
diff --git a/ircd/m_server.c b/ircd/m_server.c
index d5a6a49..07abd0b 100644
--- a/ircd/m_server.c
+++ b/ircd/m_server.c
@@ -558,6 +558,11 @@ int mr_server(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   log_write(LS_NETWORK, L_NOTICE, LOG_NOSNOTICE, "SERVER: %s %s[%s]", host,
 	    cli_sockhost(cptr), cli_sock_ip(cptr));
 
+  /* The numeric and capacity take either 1+2 or 2+3 characters. */
+  if (strlen(parv[6]) != 5 && strlen(parv[6]) != 3)
+    return exit_client_msg(cptr, cptr, &me, "Bogus numeric (%s) for %s",
+                           parv[6], host);
+
   /*
    * Detect protocol
    */
@@ -721,6 +726,11 @@ int ms_server(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
     return exit_client_msg(cptr, cptr, &me, "Bogus server name (%s)", parv[1]);
   }
 
+  /* The numeric and capacity take either 1+2 or 2+3 characters. */
+  if (strlen(parv[6]) != 5 && strlen(parv[6]) != 3)
+    return exit_client_msg(cptr, cptr, &me, "Bogus numeric (%s) for %s",
+                           parv[6], host);
+
   /*
    * Detect protocol
    */
-- 
2.43.0


From cae86f4396ec9b798ca4ed08ad8f853bb492c1cf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:01:48 +0000
Subject: [PATCH 45/95] fix: an overlong channel name from a server made the
 next burst endless

get_channel() limited the length only for local users.  A longer name that
came from another server left no room for members in the BURST line, so
send_channel_modes() produced empty BURST lines until memory ran out.
---
 ircd/channel.c  | 4 +++-
 ircd/m_create.c | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ircd/channel.c b/ircd/channel.c
index 5e5c7a2..2d9e2d7 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -1359,8 +1359,10 @@ struct Channel *get_channel(struct Client *cptr, char *chname, ChannelGetType fl
     return NULL;
 
   len = strlen(chname);
-  if (MyUser(cptr) && len > CHANNELLEN)
+  if (len > CHANNELLEN)
   {
+    if (!MyUser(cptr))
+      return NULL; /* it might not even fit into our own BURST */
     len = CHANNELLEN;
     *(chname + CHANNELLEN) = '\0';
   }
diff --git a/ircd/m_create.c b/ircd/m_create.c
index 3a74224..a2b7840 100644
--- a/ircd/m_create.c
+++ b/ircd/m_create.c
@@ -222,7 +222,12 @@ int ms_create(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
       }
     }
     else /* Channel doesn't exist: create it */
-      chptr = get_channel(sptr, name, CGT_CREATE);
+      if (!(chptr = get_channel(sptr, name, CGT_CREATE)))
+      {
+        protocol_violation(sptr, "couldn't get channel %s for %s", name,
+                           cli_name(sptr));
+        continue;
+      }
 
     if (!badop) {
       /* Set (or correct) our copy of the TS */
-- 
2.43.0


From 4d7ab37b36fbcd3d0c24eae5eb94c0e731d66e6f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:04:40 +0000
Subject: [PATCH 46/95] fix: op-levels outside their range overflowed a buffer
 in channel bursts

A BURST with voice or no mode for a member who was already there, a BURST
member without mode, or a negative level in MODE or OPMODE left members with
levels like 65535, for which send_channel_modes() has no room.
---
 ircd/channel.c | 6 ++++--
 ircd/m_burst.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ircd/channel.c b/ircd/channel.c
index 2d9e2d7..7424f5c 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -3191,15 +3191,17 @@ mode_parse_client(struct ParseState *state, int *flag_p)
                    OpLevel(state->member), req_oplevel, "op",
                    OpLevel(state->member) == req_oplevel ? "the same" : "a higher");
         return;
-      } else if (req_oplevel <= MAXOPLEVEL)
+      } else if (req_oplevel >= 0 && req_oplevel <= MAXOPLEVEL)
         oplevel = req_oplevel;
     }
     /* find client we're manipulating */
     acptr = find_chasing(state->sptr, t_str, NULL);
   } else {
-    if (t_str[5] == ':') {
+    if (strlen(t_str) > 5 && t_str[5] == ':') {
       t_str[5] = '\0';
       oplevel = atoi(t_str + 6);
+      if (oplevel < 0)
+        oplevel = MAXOPLEVEL + 1; /* not a level: as if there was none */
     }
     acptr = findNUser(t_str);
   }
diff --git a/ircd/m_burst.c b/ircd/m_burst.c
index c24e3ae..fba1719 100644
--- a/ircd/m_burst.c
+++ b/ircd/m_burst.c
@@ -593,7 +593,8 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 
 	  if (!(member = find_member_link(chptr, acptr)))
 	  {
-	    add_user_to_channel(chptr, acptr, current_mode, oplevel);
+	    add_user_to_channel(chptr, acptr, current_mode,
+				oplevel < 0 ? MAXOPLEVEL : oplevel);
 	    if (!(current_mode & CHFL_DELAYED)) {
 	      sendjointo_channel_butserv(acptr, chptr, NULL, 0, 0);
               if (cli_user(acptr)->away)
@@ -611,7 +612,8 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 	      member->status |= CHFL_BURST_ALREADY_VOICED;
 	    /* Synchronize with the burst. */
 	    member->status |= CHFL_BURST_JOINED | (current_mode & (CHFL_CHANOP|CHFL_VOICE));
-	    SetOpLevel(member, oplevel);
+	    if (current_mode & CHFL_CHANOP)
+	      SetOpLevel(member, oplevel);
 	  }
 	}
       }
-- 
2.43.0


From df4419e606919ae4a3a41963d45f194da261afe1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:17:43 +0000
Subject: [PATCH 47/95] fix: G-lines on host names did not keep anyone from
 connecting

gline_lookup() compared with realhost, which is not set before the client
is registered.  Use the name that do_gline() and find_kill() use.
---
 ircd/gline.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/gline.c b/ircd/gline.c
index ec36e02..b4a2389 100644
--- a/ircd/gline.c
+++ b/ircd/gline.c
@@ -1016,7 +1016,8 @@ gline_lookup(struct Client *cptr, unsigned int flags)
           continue;
       }
       else {
-        if (match(gline->gl_host, (cli_user(cptr))->realhost) != 0)
+        /* Not realhost: a registering client has none yet. */
+        if (match(gline->gl_host, cli_sockhost(cptr)) != 0)
           continue;
       }
     }
-- 
2.43.0


From 3230a8ce1c8a775d3b083228ea0bec28c818a662 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:17:43 +0000
Subject: [PATCH 48/95] fix: a second USER evaded the K- and G-line check and
 the ident prefix

While registration waited for CAP END or PONG, another USER replaced the
user and real name after they had been checked (and lost the ~).
---
 ircd/s_auth.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index 83b05fe..3ea2f4f 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -1371,6 +1371,8 @@ int auth_set_user(struct AuthRequest *auth, const char *username, const char *ho
   if (FlagHas(&auth->flags, AR_IAUTH_HURRY))
     return 0;
   cptr = auth->client;
+  /* Whatever was checked before, this is someone else. */
+  FlagClr(&auth->flags, AR_GLINE_CHECKED);
   ircd_strncpy(cli_info(cptr), userinfo, REALLEN);
   clean_username(cli_user(cptr)->username, username);
   ircd_strncpy(cli_user(cptr)->host, cli_sockhost(cptr), HOSTLEN);
-- 
2.43.0


From 209bbc71d3611a92bbd3367e8302233890ce8fb2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 49/95] fix: a class admitted one client fewer than its
 maxlinks

---
 ircd/s_conf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/s_conf.c b/ircd/s_conf.c
index e30651e..8521aeb 100644
--- a/ircd/s_conf.c
+++ b/ircd/s_conf.c
@@ -672,8 +672,9 @@ enum AuthorizationCheckResult attach_conf(struct Client *cptr, struct ConfItem *
     return ACR_ALREADY_AUTHORIZED;
   if (IsIllegal(aconf))
     return ACR_NO_AUTHORIZATION;
+  /* An unused class already has one reference, see make_class(). */
   if ((aconf->status & (CONF_OPERATOR | CONF_CLIENT)) &&
-      ConfLinks(aconf) >= ConfMaxLinks(aconf) && ConfMaxLinks(aconf) > 0)
+      ConfLinks(aconf) > ConfMaxLinks(aconf) && ConfMaxLinks(aconf) > 0)
     return ACR_TOO_MANY_IN_CLASS;  /* Use this for printing error message */
   lp = make_link();
   lp->next = cli_confs(cptr);
-- 
2.43.0


From c2889a95bf33a6c4ab48551056712c143de63809 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 50/95] fix: a Kill block lost its username when the host came
 after it

---
 ircd/ircd_parser.y | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ircd/ircd_parser.y b/ircd/ircd_parser.y
index 1c5491e..206f8dd 100644
--- a/ircd/ircd_parser.y
+++ b/ircd/ircd_parser.y
@@ -1159,16 +1159,18 @@ killuhost: HOST '=' QSTRING ';'
 {
   char *h;
   MyFree(dconf->hostmask);
-  MyFree(dconf->usermask);
   if ((h = strchr($3, '@')) == NULL)
   {
-    DupString(dconf->usermask, "*");
+    /* keep any username given before the host */
+    if (!dconf->usermask)
+      DupString(dconf->usermask, "*");
     dconf->hostmask = $3;
   }
   else
   {
     *h++ = '\0';
     DupString(dconf->hostmask, h);
+    MyFree(dconf->usermask);
     dconf->usermask = $3;
   }
   ipmask_parse(dconf->hostmask, &dconf->address, &dconf->bits);
-- 
2.43.0


From 8a506acda5568f177aedf5f188d49851ff3467e0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:36:20 +0000
Subject: [PATCH 51/95] fix: connection throttling lost its sense of time every
 18 hours

---
 ircd/IPcheck.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ircd/IPcheck.c b/ircd/IPcheck.c
index 567a68f..b841ef7 100644
--- a/ircd/IPcheck.c
+++ b/ircd/IPcheck.c
@@ -52,7 +52,7 @@ struct IPRegistryEntry {
   struct IPRegistryEntry*  next;   /**< Next entry in the hash chain. */
   struct IPTargetEntry*    target; /**< Recent targets, if any. */
   struct irc_in_addr       addr;   /**< IP address for this user. */
-  int		           last_connect; /**< Last connection attempt timestamp. */
+  time_t                   last_connect; /**< Last connection attempt timestamp. */
   unsigned short           connected; /**< Number of currently connected clients. */
   unsigned char            attempts; /**< Number of recent connection attempts. */
 };
@@ -60,7 +60,7 @@ struct IPRegistryEntry {
 /** Stores information about an IPv6/48 block's recent connections. */
 struct IPRegistry48 {
   struct IPRegistry48* next;     /**< Next entry in the hash chain. */
-  int              last_connect; /**< Last connection attempt timestamp. */
+  time_t               last_connect; /**< Last connection attempt timestamp. */
   uint16_t             addr[3];  /**< 48 MSBs of IP address. */
   unsigned short       attempts; /**< Number of recent connection attempts. */
 };
@@ -68,7 +68,7 @@ struct IPRegistry48 {
 /** Size of hash table (must be a power of two). */
 #define IP_REGISTRY_TABLE_SIZE 0x10000
 /** Report current time for tracking in IPRegistryEntry::last_connect. */
-#define NOW ((unsigned short)(CurrentTime & 0xffff))
+#define NOW CurrentTime
 /** Time from \a x until now, in seconds. */
 #define CONNECTED_SINCE(x) (NOW - (x))
 
-- 
2.43.0


From 1aa7b70388f047b9e55392d0b61f9a46fe018ab9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:36:20 +0000
Subject: [PATCH 52/95] fix: subnets of a 6to4 prefix were counted as different
 hosts

---
 ircd/IPcheck.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/IPcheck.c b/ircd/IPcheck.c
index b841ef7..f12a402 100644
--- a/ircd/IPcheck.c
+++ b/ircd/IPcheck.c
@@ -116,7 +116,8 @@ static void ip_registry_canonicalize(struct irc_in_addr *out, const struct irc_i
         out->in6_16[0] = in->in6_16[0];
         out->in6_16[1] = in->in6_16[1];
         out->in6_16[2] = in->in6_16[2];
-        out->in6_16[3] = in->in6_16[3];
+        /* All of a 6to4 /48 belongs to one IPv4 address. */
+        out->in6_16[3] = (in->in6_16[0] == htons(0x2002)) ? 0 : in->in6_16[3];
     }
 
     out->in6_16[4] = out->in6_16[5] = 0;
-- 
2.43.0


From 9463d7a8fde0265807d6ddcb12fa00d0dbbe2ca3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:37:05 +0000
Subject: [PATCH 53/95] fix: every throttled connection leaked its client
 structures

---
 ircd/s_bsd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ircd/s_bsd.c b/ircd/s_bsd.c
index ffb0c17..0406ed8 100644
--- a/ircd/s_bsd.c
+++ b/ircd/s_bsd.c
@@ -583,7 +583,10 @@ void add_connection(struct Listener* listener, int fd) {
       {
         ++ServerStats->is_throttled;
         write(fd, throttle_message, strlen(throttle_message));
+        if (tls)
+          ircd_tls_close(tls, NULL);
         close(fd);
+        free_client(new_client);
         return;
       }
       SetIPChecked(new_client);
-- 
2.43.0


From c767fc2870240ad3931186ea41e7effeffbff4c8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:38:32 +0000
Subject: [PATCH 54/95] fix: departing exempt clients were subtracted from
 their host's connections

---
 include/IPcheck.h |  3 +++
 ircd/IPcheck.c    | 23 +++++++++++++----------
 ircd/s_auth.c     |  6 ++++--
 ircd/s_bsd.c      |  7 +++++--
 ircd/websocket.c  |  6 ++++--
 5 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/include/IPcheck.h b/include/IPcheck.h
index 9a1d50f..e768b17 100644
--- a/include/IPcheck.h
+++ b/include/IPcheck.h
@@ -16,6 +16,9 @@ struct irc_in_addr;
 /*
  * Prototypes
  */
+/** Result of IPcheck_local_connect() for an address that is not counted. */
+#define IPCHECK_EXEMPT 2
+
 extern void IPcheck_init(void);
 extern void IPcheck_clear_config(void);
 extern int IPcheck_except(const char *ip_mask);
diff --git a/ircd/IPcheck.c b/ircd/IPcheck.c
index f12a402..946ba26 100644
--- a/ircd/IPcheck.c
+++ b/ircd/IPcheck.c
@@ -446,7 +446,7 @@ static int ip_registry_check_local(const struct irc_in_addr *addr, time_t* next_
   unsigned int free_targets = STARTTARGETS;
 
   if (ip_registry_is_exempt(addr)) {
-    return 1;
+    return IPCHECK_EXEMPT;
   }
 
   entry = ip_registry_find(addr);
@@ -540,10 +540,6 @@ static int ip_registry_check_remote(struct Client* cptr, int is_burst)
 {
   struct IPRegistryEntry* entry;
 
-  /*
-   * Mark that we did add/update an IPregistry entry
-   */
-  SetIPChecked(cptr);
   if (!irc_in_addr_valid(&cli_ip(cptr))) {
     Debug((DEBUG_DNS, "IPcheck accepting remote connection from invalid %s.", ircd_ntoa(&cli_ip(cptr))));
     return 1;
@@ -553,6 +549,11 @@ static int ip_registry_check_remote(struct Client* cptr, int is_burst)
     return 1;
   }
 
+  /*
+   * Mark that we did add/update an IPregistry entry
+   */
+  SetIPChecked(cptr);
+
   if (!irc_in_addr_is_ipv4(&cli_ip(cptr))) {
     struct IPRegistry48* entry_48 = ip_48_find(&cli_ip(cptr));
     if (CONNECTED_SINCE(entry_48->last_connect) > IPCHECK_48_CLONE_PERIOD)
@@ -737,7 +738,9 @@ static int ip_registry_count(const struct irc_in_addr *addr)
 /** Check whether a client is allowed to connect locally.
  * @param[in] a Address of client.
  * @param[out] next_target_out Receives time to grant another free target.
- * @return Non-zero if the connection is permitted, zero if denied.
+ * @return Zero if the connection is denied, IPCHECK_EXEMPT if it is
+ *   permitted and not counted, another value if it is permitted and
+ *   counted (so that the client must be marked with SetIPChecked()).
  */
 int IPcheck_local_connect(const struct irc_in_addr *a, time_t* next_target_out)
 {
@@ -765,8 +768,8 @@ int IPcheck_remote_connect(struct Client *cptr, int is_burst)
  */
 void IPcheck_connect_fail(const struct Client *cptr, int disconnect)
 {
-  assert(IsIPChecked(cptr));
-  ip_registry_connect_fail(&cli_ip(cptr), disconnect);
+  if (IsIPChecked(cptr))
+    ip_registry_connect_fail(&cli_ip(cptr), disconnect);
 }
 
 /** Handle a client that has successfully connected.
@@ -778,8 +781,8 @@ void IPcheck_connect_fail(const struct Client *cptr, int disconnect)
 void IPcheck_connect_succeeded(struct Client *cptr)
 {
   assert(0 != cptr);
-  assert(IsIPChecked(cptr));
-  ip_registry_connect_succeeded(cptr);
+  if (IsIPChecked(cptr))
+    ip_registry_connect_succeeded(cptr);
 }
 
 /** Handle a client that decided to disconnect (or was killed after
diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index 3ea2f4f..ac918d8 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -1475,16 +1475,18 @@ int auth_spoof_user(struct AuthRequest *auth, const char *username, const char *
 {
   struct Client *sptr = auth->client;
   time_t next_target = 0;
+  int checked;
 
   if (!auth_verify_hostname(hostname, HOSTLEN))
     return 1;
   if (!ipmask_parse(ip, &cli_ip(sptr), NULL))
     return 2;
-  if (!IPcheck_local_connect(&cli_ip(sptr), &next_target)) {
+  if (!(checked = IPcheck_local_connect(&cli_ip(sptr), &next_target))) {
     ++ServerStats->is_throttled;
     return exit_client(sptr, sptr, &me, "Your host is trying to (re)connect too fast -- throttled");
   }
-  SetIPChecked(sptr);
+  if (checked != IPCHECK_EXEMPT)
+    SetIPChecked(sptr);
 
   if (next_target)
     cli_nexttarget(sptr) = next_target;
diff --git a/ircd/s_bsd.c b/ircd/s_bsd.c
index 0406ed8..61715f9 100644
--- a/ircd/s_bsd.c
+++ b/ircd/s_bsd.c
@@ -579,7 +579,9 @@ void add_connection(struct Listener* listener, int fd) {
      * known at handshake; the socket peer is a Cloudflare edge node.
      */
     if (!(listener_websocket(listener) && listener_cloudflare(listener))) {
-      if (!IPcheck_local_connect(&addr.addr, &next_target))
+      int checked = IPcheck_local_connect(&addr.addr, &next_target);
+
+      if (!checked)
       {
         ++ServerStats->is_throttled;
         write(fd, throttle_message, strlen(throttle_message));
@@ -589,7 +591,8 @@ void add_connection(struct Listener* listener, int fd) {
         free_client(new_client);
         return;
       }
-      SetIPChecked(new_client);
+      if (checked != IPCHECK_EXEMPT)
+        SetIPChecked(new_client);
     }
   }
 
diff --git a/ircd/websocket.c b/ircd/websocket.c
index 6dd4987..d843277 100644
--- a/ircd/websocket.c
+++ b/ircd/websocket.c
@@ -163,6 +163,7 @@ static int websocket_apply_client_ip(struct Client *cptr, const char *ip)
 {
   struct irc_in_addr addr;
   time_t next_target = 0;
+  int checked;
 
   if (!ip || !*ip || !ipmask_parse(ip, &addr, NULL))
     return 0;
@@ -170,11 +171,12 @@ static int websocket_apply_client_ip(struct Client *cptr, const char *ip)
   if (IsIPChecked(cptr))
     IPcheck_connect_fail(cptr, 0);
 
-  if (!IPcheck_local_connect(&addr, &next_target)) {
+  if (!(checked = IPcheck_local_connect(&addr, &next_target))) {
     ++ServerStats->is_throttled;
     return 0;
   }
-  SetIPChecked(cptr);
+  if (checked != IPCHECK_EXEMPT)
+    SetIPChecked(cptr);
 
   memcpy(&cli_ip(cptr), &addr, sizeof(cli_ip(cptr)));
   ircd_ntoa_r(cli_sock_ip(cptr), &cli_ip(cptr));
-- 
2.43.0


From e96aa327f3b9e98ced38b39b97e92364b154798c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:50:40 +0000
Subject: [PATCH 55/95] fix: a failed registration could set its host's
 attempts to their maximum

If the entry of the /48 block had expired in the meantime, or a burst
had just reset the attempts of the host, decrementing the unsigned
counter wrapped it, and the host was throttled from then on.
---
 ircd/IPcheck.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ircd/IPcheck.c b/ircd/IPcheck.c
index 946ba26..e223737 100644
--- a/ircd/IPcheck.c
+++ b/ircd/IPcheck.c
@@ -606,15 +606,14 @@ static void ip_registry_connect_fail(const struct irc_in_addr *addr, int disconn
 
   if (!irc_in_addr_is_ipv4(addr)) {
     struct IPRegistry48* entry_48 = ip_48_find(addr);
-    if (0 == --entry_48->attempts)
-      ++entry_48->attempts;
+    if (entry_48->attempts > 1)
+      --entry_48->attempts;
   }
 
   if (entry) {
-    if (0 == --entry->attempts) {
-      Debug((DEBUG_DNS, "IPcheck noting local connection failure for %s.", ircd_ntoa(&entry->addr)));
-      ++entry->attempts;
-    }
+    Debug((DEBUG_DNS, "IPcheck noting local connection failure for %s.", ircd_ntoa(&entry->addr)));
+    if (entry->attempts > 1)
+      --entry->attempts;
     if (disconnect) {
       assert(entry->connected > 0);
       entry->connected--;
-- 
2.43.0


From 73f695bdcaa97067dcd65cc13392e84786f38371 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:05:07 +0000
Subject: [PATCH 56/95] fix: LIST took later limits of a list for time limits
 or ignored them

param_parse() never reset is_time between the comma-separated items, so
in the documented example "<3,>1,C<10,T>0,#a*" the topic limit was
ignored, and a user limit after C or T was read as minutes.
---
 ircd/m_list.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/m_list.c b/ircd/m_list.c
index 66e70c1..281d004 100644
--- a/ircd/m_list.c
+++ b/ircd/m_list.c
@@ -185,7 +185,7 @@ static int
 param_parse(struct Client *sptr, const char *param, struct ListingArgs *args,
 	    int permit_chan)
 {
-  int is_time = 0;
+  int is_time;
   char dir;
   unsigned int val;
   char *tmp1, *tmp2;
@@ -196,6 +196,7 @@ param_parse(struct Client *sptr, const char *param, struct ListingArgs *args,
     return LPARAM_SUCCESS;
 
   while (1) {
+    is_time = 0;
     switch (*param) {
     case 'T':
     case 't':
-- 
2.43.0


From f3c4818e39314122c5890376e60ce4817c96098d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:05:07 +0000
Subject: [PATCH 57/95] fix: WHO sent one line more than its limit

The documented limit is 2048/(n+4) lines; with exactly one more match
all were shown and still declared too many.  When the names in the mask
had used up the limit exactly, the rest was left out silently.
---
 include/whocmds.h | 2 +-
 ircd/m_who.c      | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/whocmds.h b/include/whocmds.h
index 357a175..a11be37 100644
--- a/include/whocmds.h
+++ b/include/whocmds.h
@@ -71,7 +71,7 @@ struct Channel;
  * @param[in] sptr Client listing other users.
  * @param[in,out] counter Default count for clients.
  */
-#define SHOW_MORE(sptr, counter) (HasPriv(sptr, PRIV_UNLIMIT_QUERY) || (!(counter-- < 0)) )
+#define SHOW_MORE(sptr, counter) (HasPriv(sptr, PRIV_UNLIMIT_QUERY) || (counter-- > 0))
 
 /** Can \a s see \a chptr?
  * @param[in] s Client trying to see \a chptr.
diff --git a/ircd/m_who.c b/ircd/m_who.c
index 49565d0..ea2872e 100644
--- a/ircd/m_who.c
+++ b/ircd/m_who.c
@@ -361,7 +361,7 @@ int m_who(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
 
   /* If we didn't have any comma in the mask treat it as a
      real mask and try to match all relevant fields */
-  if (!(commas || (counter < 1)))
+  if (!(commas || (counter < 0)))
   {
     struct irc_in_addr imask;
     int minlen, cset;
@@ -387,7 +387,7 @@ int m_who(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
     }
 
     /* First of all loop through the clients in common channels */
-    if ((!(counter < 1)) && matchsel) {
+    if ((!(counter < 0)) && matchsel) {
       struct Membership* member;
       struct Membership* chan;
       for (chan = cli_user(sptr)->channel; chan; chan = chan->next_channel) {
@@ -429,7 +429,7 @@ int m_who(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
     }
     /* Loop through all clients :-\, if we still have something to match to 
        and we can show more clients */
-    if ((!(counter < 1)) && matchsel)
+    if ((!(counter < 0)) && matchsel)
       for (acptr = cli_prev(&me); acptr; acptr = cli_prev(acptr))
       {
         if (!(IsUser(acptr) && Process(acptr)))
-- 
2.43.0


From e0929579d28d9e467c9c31fd97ae6c02d27666de Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:10:15 +0000
Subject: [PATCH 58/95] fix: LIST to a slow reader repeated some channels

---
 ircd/hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ircd/hash.c b/ircd/hash.c
index 72f908c..18924e1 100644
--- a/ircd/hash.c
+++ b/ircd/hash.c
@@ -433,10 +433,10 @@ void list_next_channels(struct Client *cptr)
   struct Channel *chptr;
 
   /* Walk consecutive buckets until we hit the end. */
-  for (args = cli_listing(cptr); args->bucket < HASHSIZE; args->bucket++)
+  for (args = cli_listing(cptr); args->bucket < HASHSIZE; )
   {
     /* Send all the matching channels in the bucket. */
-    for (chptr = channelTable[args->bucket]; chptr; chptr = chptr->hnext)
+    for (chptr = channelTable[args->bucket++]; chptr; chptr = chptr->hnext)
     {
       if (chptr->users > args->min_users
           && chptr->users < args->max_users
-- 
2.43.0


From 2c2abfffbc584603f600255732b2f16329283d62 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:14:20 +0000
Subject: [PATCH 59/95] fix: WHOWAS with a maximum denied nicknames it knows

---
 ircd/m_whowas.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ircd/m_whowas.c b/ircd/m_whowas.c
index 1c9250f..fdf3aee 100644
--- a/ircd/m_whowas.c
+++ b/ircd/m_whowas.c
@@ -110,7 +110,6 @@
 int m_whowas(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
 {
   struct Whowas *temp;
-  int cur = 0;
   int max = -1, found = 0;
   char *p, *nick, *s;
 
@@ -147,10 +146,9 @@ int m_whowas(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
 		   myctime(temp->logoff));
         if (temp->away)
 	  send_reply(sptr, RPL_AWAY, temp->name, temp->away);
-        cur++;
         found++;
       }
-      if (max >= 1 && cur >= max)
+      if (max >= 1 && found >= max)
         break;
     }
     if (!found)
-- 
2.43.0


From dc3845e878a76cf3b9ca50d67d8420df5e508861 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:22:36 +0000
Subject: [PATCH 60/95] fix: an aborted or timed out SASL session could still
 be answered, even after its client was freed

---
 ircd/m_sasl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ircd/m_sasl.c b/ircd/m_sasl.c
index 4bf054d..bdf5544 100644
--- a/ircd/m_sasl.c
+++ b/ircd/m_sasl.c
@@ -124,6 +124,7 @@ static void sasl_timeout_callback(struct Event* ev)
     
     /* Clear SASL session */
     sasl_stop_timeout(cptr);
+    sasl_session_remove(cli_sasl(cptr));
     cli_sasl(cptr) = 0;
   }
 }
@@ -177,6 +178,7 @@ int m_sasl(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
     /* SASL abort - stop timeout and clear session */
     if (cli_sasl(cptr)) {
       sasl_stop_timeout(cptr);
+      sasl_session_remove(cli_sasl(cptr));
       cli_sasl(cptr) = 0;
     }
     send_reply(cptr, ERR_SASLABORTED);
-- 
2.43.0


From 02c38d9a49f6e56740c96a569a4c3b7e32872862 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:22:36 +0000
Subject: [PATCH 61/95] fix: large account ids and flags were changed on their
 way through the network

---
 ircd/m_account.c | 4 ++--
 ircd/s_user.c    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ircd/m_account.c b/ircd/m_account.c
index 07c4f89..548f7ea 100644
--- a/ircd/m_account.c
+++ b/ircd/m_account.c
@@ -127,10 +127,10 @@ int ms_account(struct Client* cptr, struct Client* sptr, int parc,
     return 0; /* Ignore ACCOUNT for a user that QUIT; probably crossed */
 
   if (parc > 3)
-    acc_id = atoi(parv[3]);
+    acc_id = strtoull(parv[3], NULL, 10);
 
   if (parc > 4)
-    acc_flags = atoi(parv[4]);
+    acc_flags = strtoull(parv[4], NULL, 10);
 
   /* If the client already has an account, we do not accept changes to the account or acc_id. */
   if (IsAccount(acptr)) {
diff --git a/ircd/s_user.c b/ircd/s_user.c
index e706fe2..fcc3ee6 100644
--- a/ircd/s_user.c
+++ b/ircd/s_user.c
@@ -1227,7 +1227,7 @@ int set_user_mode(struct Client *cptr, struct Client *sptr, int parc,
       char *id, *flags;
       if ((id = strchr(account, ':'))) {
         len = (id++) - account;
-	      cli_user(sptr)->acc_id = atoi(id);
+	      cli_user(sptr)->acc_id = strtoull(id, NULL, 10);
 	      Debug((DEBUG_DEBUG, "Received account id in user mode; "
 	        "account \"%s\", id %qu", account,
 	        cli_user(sptr)->acc_id));
@@ -1235,7 +1235,7 @@ int set_user_mode(struct Client *cptr, struct Client *sptr, int parc,
         /* Check for account flags */
         if ((flags = strchr(id, ':'))) {
             // Parse the flags after the second colon.
-            cli_user(sptr)->acc_flags = atoi(flags + 1);
+            cli_user(sptr)->acc_flags = strtoull(flags + 1, NULL, 10);
             // Null-terminate the account string before flags.
             *flags = '\0';
             Debug((DEBUG_DEBUG, "Received account flags; account \"%s\", flags %qu",
@@ -1320,7 +1320,7 @@ char *umode_str(struct Client *cptr)
     m--; /* back up over previous nul-termination */
 
     if (cli_user(cptr)->acc_id) {
-      char nbuf[30];
+      char nbuf[44];
       Debug((DEBUG_DEBUG, "Sending account id in user mode for "
 	     "account \"%s\"; id %qu", cli_user(cptr)->account,
 	     cli_user(cptr)->acc_id));
-- 
2.43.0


From 0cad96b2815c4119d72df469fe44bf82d642851d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:22:36 +0000
Subject: [PATCH 62/95] fix: an introduced user's long account name overflowed
 its buffer

---
 ircd/s_user.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ircd/s_user.c b/ircd/s_user.c
index fcc3ee6..4e36498 100644
--- a/ircd/s_user.c
+++ b/ircd/s_user.c
@@ -1227,6 +1227,8 @@ int set_user_mode(struct Client *cptr, struct Client *sptr, int parc,
       char *id, *flags;
       if ((id = strchr(account, ':'))) {
         len = (id++) - account;
+        if (len > ACCOUNTLEN)
+          len = ACCOUNTLEN;
 	      cli_user(sptr)->acc_id = strtoull(id, NULL, 10);
 	      Debug((DEBUG_DEBUG, "Received account id in user mode; "
 	        "account \"%s\", id %qu", account,
-- 
2.43.0


From 7dd70d14844602693c07d202ac35d3c25758da87 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:37:19 +0000
Subject: [PATCH 63/95] fix: a deleted network setting came back when an older
 change arrived later

---
 ircd/ircd_netconf.c | 66 ++++++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 24 deletions(-)

diff --git a/ircd/ircd_netconf.c b/ircd/ircd_netconf.c
index b6f9bd2..da836be 100644
--- a/ircd/ircd_netconf.c
+++ b/ircd/ircd_netconf.c
@@ -119,7 +119,8 @@ static void config_call_callbacks(const char *key, const char *old_value, const
  * @param[in] key Configuration key
  * @param[in] value Configuration value
  * @param[in] timestamp Timestamp when this config was set
- * @return 1 if the value was updated, 0 if it was created, -1 on error
+ * @return One of the CONFIG_* values: CONFIG_REJECTED if a newer setting
+ *   or deletion of \a key is known, else what the call did.
  */
 int config_set(const char *key, const char *value, time_t timestamp)
 {
@@ -133,24 +134,31 @@ int config_set(const char *key, const char *value, time_t timestamp)
   entry = config_find(key);
 
   if (value[0] == '\0') {
-    /* Delete the entry if it exists and timestamp is newer */
-    if (entry && timestamp > entry->timestamp) {
-      DupString(old_value, entry->value);
-      /* Remove from list */
-      struct ConfigEntry **p = &config_list;
-      while (*p && *p != entry) p = &(*p)->next;
-      if (*p == entry) {
-        *p = entry->next;
-        MyFree(entry->key);
-        MyFree(entry->value);
-        MyFree(entry);
-      }
-      config_call_callbacks(key, old_value, NULL);
-      if (old_value) MyFree(old_value);
-      return CONFIG_DELETED;
-    } else {
+    /* Delete the entry if timestamp is newer.  An entry with an empty
+     * value stays behind to remember when the key was deleted: without
+     * it, an older setting that arrives later (for instance from the
+     * other side of a netsplit) would bring the key back.
+     */
+    if (entry && timestamp <= entry->timestamp)
       return CONFIG_REJECTED;
+
+    if (!entry) {
+      entry = MyMalloc(sizeof(struct ConfigEntry));
+      DupString(entry->key, key);
+      entry->next = config_list;
+      config_list = entry;
+    } else if (entry->value[0] == '\0') {
+      MyFree(entry->value);
+    } else {
+      old_value = entry->value;
     }
+    DupString(entry->value, "");
+    entry->timestamp = timestamp;
+    if (!old_value)
+      return CONFIG_TIMESTAMP;
+    config_call_callbacks(key, old_value, NULL);
+    MyFree(old_value);
+    return CONFIG_DELETED;
   }
 
   if (entry) {
@@ -158,17 +166,21 @@ int config_set(const char *key, const char *value, time_t timestamp)
     if (timestamp <= entry->timestamp)
       return CONFIG_REJECTED;
 
-    /* Save old value for callbacks */
-    DupString(old_value, entry->value);
+    /* Save old value for callbacks; a deleted key has none */
+    if (entry->value[0] != '\0')
+      DupString(old_value, entry->value);
 
     /* Check if value actually changed */
-    int value_changed = (ircd_strcmp(old_value, value) != 0);
+    int value_changed = (!old_value || ircd_strcmp(old_value, value) != 0);
 
     /* Update existing entry */
     MyFree(entry->value);
     DupString(entry->value, value);
     entry->timestamp = timestamp;
-    result = value_changed ? CONFIG_CHANGED : CONFIG_TIMESTAMP;
+    if (!old_value)
+      result = CONFIG_CREATED;
+    else
+      result = value_changed ? CONFIG_CHANGED : CONFIG_TIMESTAMP;
   } else {
     /* Create new entry */
     entry = MyMalloc(sizeof(struct ConfigEntry));
@@ -205,7 +217,7 @@ const char *config_get(const char *key)
   assert(key != NULL);
 
   entry = config_find(key);
-  return entry ? entry->value : NULL;
+  return (entry && entry->value[0] != '\0') ? entry->value : NULL;
 }
 
 /** Count the number of configuration entries
@@ -283,8 +295,12 @@ void config_burst(struct Client *cptr)
   struct ConfigEntry *entry;
 
   for (entry = config_list; entry; entry = entry->next) {
-    sendcmdto_one(&me, CMD_CONFIG, cptr, "%Tu %s :%s",
-                  entry->timestamp, entry->key, entry->value);
+    if (entry->value[0] != '\0')
+      sendcmdto_one(&me, CMD_CONFIG, cptr, "%Tu %s :%s",
+                    entry->timestamp, entry->key, entry->value);
+    else
+      sendcmdto_one(&me, CMD_CONFIG, cptr, "%Tu %s",
+                    entry->timestamp, entry->key);
   }
 
   Debug((DEBUG_DEBUG, "Config burst: %d entries sent to %s",
@@ -300,6 +316,8 @@ void config_stats(struct Client *sptr, const struct StatDesc *sd, char *param)
 {
   struct ConfigEntry *entry;
   for (entry = config_list; entry; entry = entry->next) {
+    if (entry->value[0] == '\0')
+      continue; /* deleted */
     send_reply(sptr, SND_EXPLICIT | RPL_STATSDEBUG,
                "%Tu %s :%s",
                entry->timestamp, entry->key, entry->value);
-- 
2.43.0


From cb3032c91c27751e3909e1164d4af721aff464c4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:37:19 +0000
Subject: [PATCH 64/95] fix: an S-line change that changed nothing did not
 count as its newest change

---
 ircd/m_sline.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ircd/m_sline.c b/ircd/m_sline.c
index 25186da..2373c30 100644
--- a/ircd/m_sline.c
+++ b/ircd/m_sline.c
@@ -185,14 +185,15 @@ ms_sline(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
       updates |= SLINE_EXPIRE;
     }
 
-    /* If there is no updates, we ignore. */
+    /* If there is no updates, only remember (and pass on) the newer
+     * timestamp; otherwise an older change that arrives later would be
+     * taken here and refused by servers that saw this one first.
+     */
     if (updates == 0) {
-      Debug((DEBUG_DEBUG, "S-line already exists with same state, msgtype and expire time, ignoring"));
-      return 0;
-    }
-
-    /* Modify S:line record. */
-    sline_modify(sptr, asline, lastmod, expire, msgtype, *state == '+' ? SLINE_ACTIVE : 0, updates);
+      Debug((DEBUG_DEBUG, "S-line already exists with same state, msgtype and expire time, updating timestamp"));
+      asline->sl_lastmod = lastmod;
+    } else /* Modify S:line record. */
+      sline_modify(sptr, asline, lastmod, expire, msgtype, *state == '+' ? SLINE_ACTIVE : 0, updates);
   } else {
     /* If we rejected the S-line locally, do not propagate it. */
     if (!sline_add(cptr, sptr, pattern, lastmod, expire, msgtype, *state == '+' ? SLINE_ACTIVE : 0))
-- 
2.43.0


From 734414fdd10eecc3bdae7267801fcc7bde18f37a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:56:41 +0000
Subject: [PATCH 65/95] fix: a held NOTICE was answered with an away message
 when it was delivered

---
 ircd/sline.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ircd/sline.c b/ircd/sline.c
index d3bd411..4a4bb08 100644
--- a/ircd/sline.c
+++ b/ircd/sline.c
@@ -1055,8 +1055,8 @@ sline_release_privmsg(struct HoldQueueEntry *entry)
     return 0;
   }
 
-  /* Send away message if user is away */
-  if (cli_user(entry->target.recipient) && cli_user(entry->target.recipient)->away)
+  /* Send away message if user is away; notices get no automatic reply */
+  if (strcmp(entry->cmdtype, MSG_NOTICE) && cli_user(entry->target.recipient) && cli_user(entry->target.recipient)->away)
     send_reply(entry->sender, RPL_AWAY, cli_name(entry->target.recipient), cli_user(entry->target.recipient)->away);
 
   /* Deliver the message */
-- 
2.43.0


From ae3ac11a1a4675782bfd1ca058602d6976818589 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:56:52 +0000
Subject: [PATCH 66/95] fix: held messages were delivered to users whose modes
 +c or +R refuse them

---
 include/ircd_relay.h |  1 +
 ircd/ircd_relay.c    |  2 +-
 ircd/sline.c         | 10 ++++++++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/ircd_relay.h b/include/ircd_relay.h
index eeefdf8..17be28c 100644
--- a/include/ircd_relay.h
+++ b/include/ircd_relay.h
@@ -29,6 +29,7 @@
 
 struct Client;
 
+extern int commonchans_drop(struct Client *sptr, struct Client *acptr);
 extern void relay_channel_message(struct Client* sptr, const char* name, const char* text);
 extern void relay_channel_notice(struct Client* sptr, const char* name, const char* text);
 extern void relay_directed_message(struct Client* sptr, char* name, char* server, const char* text);
diff --git a/ircd/ircd_relay.c b/ircd/ircd_relay.c
index 57f02b0..70ce618 100644
--- a/ircd/ircd_relay.c
+++ b/ircd/ircd_relay.c
@@ -459,7 +459,7 @@ static int has_common_channel(struct Client *sptr, struct Client *acptr)
  * @param[in] acptr Target of the message.
  * @return Non-zero if the message should be dropped.
  */
-static int commonchans_drop(struct Client *sptr, struct Client *acptr)
+int commonchans_drop(struct Client *sptr, struct Client *acptr)
 {
   if (!IsCommonChans(acptr) || sptr == acptr)
     return 0;
diff --git a/ircd/sline.c b/ircd/sline.c
index 4a4bb08..572b218 100644
--- a/ircd/sline.c
+++ b/ircd/sline.c
@@ -28,6 +28,7 @@
 #include "ircd_features.h"
 #include "ircd_log.h"
 #include "ircd_netconf.h"
+#include "ircd_relay.h"
 #include "ircd_reply.h"
 #include "ircd_snprintf.h"
 #include "ircd_string.h"
@@ -1055,6 +1056,15 @@ sline_release_privmsg(struct HoldQueueEntry *entry)
     return 0;
   }
 
+  /* Check the recipient's modes +R and +c; +c was not checked before the
+   * message was held, and both may have been set since.
+   */
+  if (should_block_unauth_user(entry->sender, entry->target.recipient)
+      || commonchans_drop(entry->sender, entry->target.recipient)) {
+    Debug((DEBUG_DEBUG, "sline_release_privmsg: recipient does not accept messages from sender"));
+    return 0;
+  }
+
   /* Send away message if user is away; notices get no automatic reply */
   if (strcmp(entry->cmdtype, MSG_NOTICE) && cli_user(entry->target.recipient) && cli_user(entry->target.recipient)->away)
     send_reply(entry->sender, RPL_AWAY, cli_name(entry->target.recipient), cli_user(entry->target.recipient)->away);
-- 
2.43.0


From 617914b6a0e56607d49cbf3ff8c0c2370d1833d2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:57:48 +0000
Subject: [PATCH 67/95] fix: a held message was read after it was freed when
 its time ran out

---
 ircd/sline.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ircd/sline.c b/ircd/sline.c
index 572b218..9c1624a 100644
--- a/ircd/sline.c
+++ b/ircd/sline.c
@@ -1412,11 +1412,13 @@ sline_hold_timeout_callback(struct Event* ev)
         sline_stats_counters.messages_released++; /* Increment released counter */
         
         /* sline_release_hold() removes and frees the entry regardless of
-         * whether delivery succeeded, so we must not free it again here. */
-        if (sline_release_hold(entry->token)) {
-          Debug((DEBUG_DEBUG, "sline_hold_timeout_callback: successfully released expired token %u", entry->token));
+         * whether delivery succeeded, so we must not free it again here,
+         * nor look at it for the debug messages. */
+        uint64_t token = entry->token;
+        if (sline_release_hold(token)) {
+          Debug((DEBUG_DEBUG, "sline_hold_timeout_callback: successfully released expired token %u", token));
         } else {
-          Debug((DEBUG_DEBUG, "sline_hold_timeout_callback: expired token %u could not be delivered", entry->token));
+          Debug((DEBUG_DEBUG, "sline_hold_timeout_callback: expired token %u could not be delivered", token));
         }
       }
     }
-- 
2.43.0


From 25800ae50cc78812267d094bb95b611a6eabcd7f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:09:43 +0000
Subject: [PATCH 68/95] fix: every rehash leaked the passwords of unchanged
 WebIRC blocks

---
 ircd/ircd_parser.y | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ircd/ircd_parser.y b/ircd/ircd_parser.y
index 206f8dd..f40a0ce 100644
--- a/ircd/ircd_parser.y
+++ b/ircd/ircd_parser.y
@@ -1441,6 +1441,7 @@ webircblock: WEBIRC
     /* Update it, or create a new structure. */
     if (wline) {
       MyFree(wline->description);
+      MyFree(pass);
     } else {
       wline = (struct wline *) MyMalloc(sizeof(*wline));
       memcpy(&wline->ip, &peer, sizeof(wline->ip));
-- 
2.43.0


From 33e57abe5be693f35151e3b822562d18ec68c259 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:15:14 +0000
Subject: [PATCH 69/95] fix: an unknown word in the configuration read past the
 end of the buffer

---
 ircd/ircd_lexer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ircd/ircd_lexer.c b/ircd/ircd_lexer.c
index d99c6da..b27d3a6 100644
--- a/ircd/ircd_lexer.c
+++ b/ircd/ircd_lexer.c
@@ -381,8 +381,8 @@ int yylex(void)
       yy_in->tok_ofs = pos - yy_in->buf;
       if (nbr)
         return nbr;
-      log_write(LS_CONFIG, L_CRIT, 0, "unhandled token %s at line %d of %s",
-        start, yy_in->lineno, yy_in->name);
+      log_write(LS_CONFIG, L_CRIT, 0, "unhandled token %.*s at line %d of %s",
+        (int)(pos - start), start, yy_in->lineno, yy_in->name);
     }
 
     /* Otherwise we are looking at a meaningful character. */
-- 
2.43.0


From e22708bcfd19ba5d99a7aa99f74f527ae69af8af Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:16:04 +0000
Subject: [PATCH 70/95] hook: IRCD_NO_FREELIST keeps requests destroyed by
 their own event

---
 ircd/s_auth.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index ac918d8..9d036ba 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -960,8 +960,11 @@ void destroy_auth_request(struct AuthRequest* auth)
 
   cli_auth(auth->client) = NULL;
 #ifdef IRCD_NO_FREELIST /* verification: make any later use visible */
-  MyFree(auth);
-  return;
+  if (!(auth->timeout.t_header.gh_flags & GEN_MARKED)
+      && !auth->timeout.t_header.gh_ref && !auth->socket.s_header.gh_ref) {
+    MyFree(auth);
+    return;
+  }
 #endif
   auth->next = auth_freelist;
   auth_freelist = auth;
-- 
2.43.0


From 056ec9720e5d885c4e2bd65201a68f688d786eec Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:24:27 +0000
Subject: [PATCH 71/95] fix: a PONG on a server port before SERVER crashed the
 server

---
 ircd/m_pong.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ircd/m_pong.c b/ircd/m_pong.c
index d18deec..c8278b9 100644
--- a/ircd/m_pong.c
+++ b/ircd/m_pong.c
@@ -166,7 +166,10 @@ int mr_pong(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   assert(!IsRegistered(sptr));
 
   ClearPingSent(cptr);
-  return (parc > 1) ? auth_set_pong(cli_auth(sptr), strtoul(parv[parc - 1], NULL, 10)) : 0;
+  /* A connection to or from a server has no auth request (any more). */
+  if (parc < 2 || !cli_auth(sptr))
+    return 0;
+  return auth_set_pong(cli_auth(sptr), strtoul(parv[parc - 1], NULL, 10));
 }
 
 /*
-- 
2.43.0


From 87c332db932147456afb35f7f42d591d7ca98e15 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:27:27 +0000
Subject: [PATCH 72/95] fix: STATS memory read an uninitialised name while a
 reverse lookup was pending

---
 ircd/ircd_res.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ircd/ircd_res.c b/ircd/ircd_res.c
index c756b13..5a5a572 100644
--- a/ircd/ircd_res.c
+++ b/ircd/ircd_res.c
@@ -662,6 +662,7 @@ do_query_number(dns_callback_f callback, void *ctx, const struct irc_in_addr *ad
     request->type = T_PTR;
     memcpy(&request->addr, addr, sizeof(request->addr));
     request->name = (char *)MyMalloc(HOSTLEN + 1);
+    request->name[0] = '\0'; /* unknown as yet */
   }
   Debug((DEBUG_DNS, "Requesting DNS PTR %s as %p", ipbuf, request));
   query_name(ipbuf, C_IN, T_PTR, request);
-- 
2.43.0


From 60894662ecc8f7257d0a622839e45aec36600656 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:06:26 +0000
Subject: [PATCH 73/95] fix: a division by zero in the configuration crashed
 the server

---
 ircd/ircd_parser.y | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ircd/ircd_parser.y b/ircd/ircd_parser.y
index f40a0ce..e4ac1b3 100644
--- a/ircd/ircd_parser.y
+++ b/ircd/ircd_parser.y
@@ -329,8 +329,12 @@ expr: NUMBER
 		| expr '*' expr { 
 			$$ = $1 * $3;
 		}
-		| expr '/' expr { 
-			$$ = $1 / $3;
+		| expr '/' expr {
+			if ($3 == 0) {
+				parse_error("Division by zero");
+				$$ = 0;
+			} else
+				$$ = (int)((long long)$1 / $3);
 		}
 /* leave this out until we find why it makes BSD yacc dump core -larne
 		| '-' expr  %prec NEG {
-- 
2.43.0


From 95084ee36f9565fcf760c1c3da22a80ff34eb9a6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:06:26 +0000
Subject: [PATCH 74/95] fix: reloading without TLS files in the General block
 freed the old names twice

---
 ircd/ircd_parser.y | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ircd/ircd_parser.y b/ircd/ircd_parser.y
index e4ac1b3..82a92c9 100644
--- a/ircd/ircd_parser.y
+++ b/ircd/ircd_parser.y
@@ -369,15 +369,18 @@ generalblock: GENERAL
     parse_error("Your General block must contain a numeric (between 1 and 4095).");
   MyFree(ircd_tls_keyfile);
   MyFree(ircd_tls_certfile);
+  ircd_tls_keyfile = ircd_tls_certfile = NULL;
   if (tls_certfile && !tls_keyfile)
   {
     parse_error("General block has tls certfile but no tls keyfile; disabling TLS");
     MyFree(tls_certfile);
+    tls_certfile = NULL;
   }
   else if (tls_keyfile && !tls_certfile)
   {
     parse_error("General block has tls keyfile but no tls certfile; disabling TLS");
     MyFree(tls_keyfile);
+    tls_keyfile = NULL;
   }
   else if (tls_certfile && tls_keyfile)
   {
@@ -469,11 +472,13 @@ generaldnsserver: DNS SERVER '=' QSTRING ';'
 
 generaltlscertfile: TLS CERTFILE '=' QSTRING ';'
 {
+  MyFree(tls_certfile);
   tls_certfile = $4;
 };
 
 generaltlskeyfile: TLS KEYFILE '=' QSTRING ';'
 {
+  MyFree(tls_keyfile);
   tls_keyfile = $4;
 };
 
-- 
2.43.0


From 9cca21679f831b1a95fe5b421df86d70c5b1c5ec Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:06:26 +0000
Subject: [PATCH 75/95] fix: TLS settings of a Port block without TLS were used
 after they were freed

---
 ircd/ircd_parser.y | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ircd/ircd_parser.y b/ircd/ircd_parser.y
index 82a92c9..c43597a 100644
--- a/ircd/ircd_parser.y
+++ b/ircd/ircd_parser.y
@@ -902,6 +902,7 @@ portblock: PORT {
     MyFree(tls_ciphers);
     MyFree(tls_cacertfile);
     MyFree(tls_cacertdir);
+    tls_ciphers = tls_cacertfile = tls_cacertdir = NULL;
   }
   for (link = hosts; link != NULL; link = link->next) {
     memcpy(&flags_here, &listen_flags, sizeof(flags_here));
-- 
2.43.0


From 9d505621a95f07d52502890e0b54ac5875621ccb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:06:26 +0000
Subject: [PATCH 76/95] fix: an Operator block's fingerprint was only required
 from its last host

---
 ircd/ircd_parser.y | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ircd/ircd_parser.y b/ircd/ircd_parser.y
index c43597a..1dcd027 100644
--- a/ircd/ircd_parser.y
+++ b/ircd/ircd_parser.y
@@ -754,16 +754,13 @@ operblock: OPER {
     memcpy(&aconf->privs, &privs, sizeof(aconf->privs));
     memcpy(&aconf->privs_dirty, &privs_dirty, sizeof(aconf->privs_dirty));
     if (tls_fingerprint)
-    {
-      aconf->tls_fingerprint = tls_fingerprint;
-      tls_fingerprint = NULL;
-    }
+      DupString(aconf->tls_fingerprint, tls_fingerprint);
   }
   MyFree(name);
   MyFree(pass);
   MyFree(tls_fingerprint);
   free_slist(&hosts);
-  name = pass = NULL;
+  name = pass = tls_fingerprint = NULL;
   c_class = NULL;
   memset(&privs, 0, sizeof(privs));
   memset(&privs_dirty, 0, sizeof(privs_dirty));
-- 
2.43.0


From 87f4cbf0cbd36099e5024cb6702646b78d1f5ffe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:06:26 +0000
Subject: [PATCH 77/95] fix: an IAuth block after a Features block freed
 strings twice

---
 ircd/ircd_parser.y | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ircd/ircd_parser.y b/ircd/ircd_parser.y
index 1dcd027..649441c 100644
--- a/ircd/ircd_parser.y
+++ b/ircd/ircd_parser.y
@@ -1312,6 +1312,7 @@ featureitem: QSTRING
   feature_set(NULL, (const char * const *)stringlist, stringno);
   for (ii = 0; ii < stringno; ++ii)
     MyFree(stringlist[ii]);
+  stringno = 0;
 };
 
 stringlist: stringlist extrastring | extrastring;
-- 
2.43.0


From 9930e46a1be8a63f0830512333cb3900c59ff7ea Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:08:03 +0000
Subject: [PATCH 78/95] fix: a configuration or included file that cannot be
 opened hung the server

---
 ircd/ircd_lexer.c  | 10 +++++++---
 ircd/ircd_parser.y |  5 ++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/ircd/ircd_lexer.c b/ircd/ircd_lexer.c
index b27d3a6..50e509d 100644
--- a/ircd/ircd_lexer.c
+++ b/ircd/ircd_lexer.c
@@ -240,7 +240,8 @@ static void lexer_pop(void)
 
   obj = yy_in;
   yy_in = obj->parent;
-  close(obj->fd);
+  if (obj->fd >= 0)
+    close(obj->fd);
   MyFree(obj->name);
   MyFree(obj);		
 }
@@ -315,8 +316,11 @@ int yylex(void)
   if (!yy_in)
     return YYEOF;
 
-  if (yy_in->fd < 0)
-    return TOKERR;
+  if (yy_in->fd < 0) {
+    /* The file could not be opened; the error was reported then. */
+    lexer_pop();
+    return yy_in ? TEOF : YYEOF;
+  }
 
   for (;;) {
     pos = yy_in->buf + yy_in->tok_ofs;
diff --git a/ircd/ircd_parser.y b/ircd/ircd_parser.y
index 649441c..f17410a 100644
--- a/ircd/ircd_parser.y
+++ b/ircd/ircd_parser.y
@@ -1502,8 +1502,11 @@ includeblock: INCLUDE {
   flags = 0;
 } blockspec ';' {
   lexer_include($3, flags);
+  MyFree($3);
   yychar = YYEMPTY;
-} blocks TEOF;
+} includebody;
+
+includebody: TEOF | blocks TEOF;
 
 blockspec: QSTRING { flags = ~0; }
   | blocktypes FROM QSTRING { flags = $1; $$ = $3; };
-- 
2.43.0


From 5dae1fa230ab6fbc2616139b5cf800f3b62c85ee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:08:03 +0000
Subject: [PATCH 79/95] fix: everything after a long comment or token in the
 configuration was ignored

---
 ircd/ircd_lexer.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ircd/ircd_lexer.c b/ircd/ircd_lexer.c
index 50e509d..35f51ee 100644
--- a/ircd/ircd_lexer.c
+++ b/ircd/ircd_lexer.c
@@ -336,8 +336,12 @@ int yylex(void)
     /* If we are looking at a comment, chomp through EOL. */
     if ((pos < stop) && (*pos == '#')) {
       while ((++pos < stop) && (*pos != '\n')) {}
-      if (pos == stop)
+      if (pos == stop) {
+        /* Nothing of a long comment needs to be kept but its mark. */
+        *--pos = '#';
+        yy_in->tok_ofs = pos - yy_in->buf;
         goto grab_more;
+      }
       yy_in->tok_ofs = ++pos - yy_in->buf;
       ++yy_in->lineno;
       continue;
@@ -408,6 +412,8 @@ int yylex(void)
     if (yy_in->buf_used >= sizeof(yy_in->buf)) {
       log_write(LS_CONFIG, L_CRIT, 0, "token at line %d of %s too big",
         yy_in->lineno, yy_in->name);
+      yyerror("token too long");
+      yy_in->buf_used = 0;
     }
 
     /* Read more data into the buffer. */
-- 
2.43.0


From d53beac1dc742900d235d2e3bedae3983a36b113 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:08:03 +0000
Subject: [PATCH 80/95] fix: a configuration the parser gave up on aborted the
 server

---
 ircd/ircd_lexer.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ircd/ircd_lexer.c b/ircd/ircd_lexer.c
index 35f51ee..611034b 100644
--- a/ircd/ircd_lexer.c
+++ b/ircd/ircd_lexer.c
@@ -275,8 +275,7 @@ int init_lexer(void)
 
 void deinit_lexer(void)
 {
-  assert(!yy_in);
-
+  /* The parser may have given up before the end. */
   while (yy_in) {
     lexer_pop();
   }
-- 
2.43.0


From 7051e12ba78cab50f188bca13ce6471ed79f7abc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:14:01 +0000
Subject: [PATCH 81/95] fix: including only some blocks of a configuration file
 was a syntax error

---
 ircd/ircd_lexer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ircd/ircd_lexer.c b/ircd/ircd_lexer.c
index 611034b..c3535f9 100644
--- a/ircd/ircd_lexer.c
+++ b/ircd/ircd_lexer.c
@@ -95,6 +95,7 @@ static const struct lexer_token tokens[] = {
   { "fingerprint", FINGERPRINT },
   { "force_local_opmode", TPRIV_FORCE_LOCAL_OPMODE },
   { "force_opmode", TPRIV_FORCE_OPMODE },
+  { "from", FROM },
   { "gb", GBYTES },
   { "gbytes", GBYTES },
   { "general", GENERAL },
@@ -216,7 +217,8 @@ static int lexer_open(const char *fname, int allow_fail, unsigned int allowed)
   obj = MyMalloc(sizeof(*obj));
   obj->fd = open(fname, O_RDONLY | O_NOCTTY | O_CLOEXEC);
   DupString(obj->name, fname);
-  obj->allowed = allowed;
+  /* What is included cannot do more than what includes it. */
+  obj->allowed = allowed & (yy_in ? yy_in->allowed : ~0u);
   obj->parent = yy_in;
   obj->lineno = 1;
   obj->tok_ofs = obj->buf_used = 0;
-- 
2.43.0


From 3ffa517cca2ca7b268f331898234274e5a11e45f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:15:20 +0000
Subject: [PATCH 82/95] fix: IPCheck exceptions removed from the configuration
 stayed in force

---
 ircd/s_conf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ircd/s_conf.c b/ircd/s_conf.c
index 8521aeb..68de142 100644
--- a/ircd/s_conf.c
+++ b/ircd/s_conf.c
@@ -1126,6 +1126,7 @@ int rehash(struct Client *cptr, int sig)
   mark_listeners_closing();
   auth_mark_closing();
   webirc_mark_stale();
+  IPcheck_clear_config();
   close_mappings();
   DoIdentLookups = 0;
 
-- 
2.43.0


From d92178e3caa9723865bb02d1ae7f95d2b5e4dadd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:18:43 +0000
Subject: [PATCH 83/95] fix: parts of a broken configuration block became part
 of the next one, or of the next reload

---
 include/ircd_lexer.h |  1 +
 ircd/ircd_parser.y   | 53 +++++++++++++++++++++++++++++++++++++++++---
 ircd/s_conf.c        |  1 +
 3 files changed, 52 insertions(+), 3 deletions(-)

diff --git a/include/ircd_lexer.h b/include/ircd_lexer.h
index 5246b6e..5525351 100644
--- a/include/ircd_lexer.h
+++ b/include/ircd_lexer.h
@@ -29,5 +29,6 @@ extern int lexer_allowed(unsigned int bitnum);
 extern void deinit_lexer(void);
 
 extern int yyparse(void);
+extern void reset_block(void);
 
 #endif /* INCLUDED_ircd_lexer_h */
diff --git a/ircd/ircd_parser.y b/ircd/ircd_parser.y
index f17410a..753094b 100644
--- a/ircd/ircd_parser.y
+++ b/ircd/ircd_parser.y
@@ -150,6 +150,51 @@ static void free_slist(struct SLink **link) {
   }
 }
 
+/** Forget a partly parsed block. */
+void reset_block(void)
+{
+  while (stringno > 0) {
+    --stringno;
+    MyFree(stringlist[stringno]);
+  }
+  MyFree(name);
+  MyFree(pass);
+  MyFree(host);
+  MyFree(ip);
+  MyFree(username);
+  MyFree(origin);
+  MyFree(hub_limit);
+  MyFree(tls_certfile);
+  MyFree(tls_ciphers);
+  MyFree(tls_fingerprint);
+  MyFree(tls_keyfile);
+  MyFree(tls_cacertfile);
+  MyFree(tls_cacertdir);
+  name = pass = host = ip = username = origin = hub_limit = NULL;
+  tls_certfile = tls_ciphers = tls_fingerprint = tls_keyfile = NULL;
+  tls_cacertfile = tls_cacertdir = NULL;
+  tls_verifypeer = 0;
+  tls_systemca = LISTENER_TLS_SYSTEMCA_DEFAULT;
+  tping = tconn = maxflood = maxlinks = sendq = port = invert = flags = 0;
+  free_slist(&hosts);
+  memset(&listen_flags, 0, sizeof(listen_flags));
+  c_class = NULL;
+  if (dconf != NULL) {
+    MyFree(dconf->usermask);
+    MyFree(dconf->hostmask);
+    MyFree(dconf->realmask);
+    MyFree(dconf->message);
+    MyFree(dconf);
+    dconf = NULL;
+  }
+  if (smap != NULL) {
+    free_mapping(smap);
+    smap = NULL;
+  }
+  memset(&privs, 0, sizeof(privs));
+  memset(&privs_dirty, 0, sizeof(privs_dirty));
+}
+
 %}
 
 %token <text> QSTRING
@@ -269,7 +314,7 @@ block: adminblock | generalblock | classblock | connectblock |
        uworldblock | operblock | portblock | jupeblock | clientblock |
        killblock | cruleblock | motdblock | featuresblock | quarantineblock |
        pseudoblock | iauthblock | webircblock | ipcheckblock |
-       includeblock | error '}' ';' { yyerrok; };
+       includeblock | error '}' ';' { reset_block(); yyerrok; };
 
 /* The timespec, sizespec and expr was ripped straight from
  * ircd-hybrid-7. */
@@ -1462,11 +1507,13 @@ webircblock: WEBIRC
     wline->hidden = (flags & 1) != 0;
     wline->description = name;
 
-    MyFree(ip);
-    ip = NULL;
     pass = NULL;
     name = NULL;
   }
+  MyFree(ip);
+  MyFree(pass);
+  MyFree(name);
+  ip = pass = name = NULL;
 };
 
 webircitems: webircitem | webircitems webircitem;
diff --git a/ircd/s_conf.c b/ircd/s_conf.c
index 68de142..a125463 100644
--- a/ircd/s_conf.c
+++ b/ircd/s_conf.c
@@ -1003,6 +1003,7 @@ int read_configuration_file(void)
   if (!init_lexer())
     return 0;
   yyparse();
+  reset_block(); /* the last block may not have been finished */
   deinit_lexer();
   feature_mark(); /* reset unmarked features */
   conf_already_read = 1;
-- 
2.43.0


From 8a43f678ea1d7219a4caef627f74ba1a4621e2b7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:36:42 +0000
Subject: [PATCH 84/95] fix: a PINGFREQUENCY of zero hung the server

---
 ircd/ircd.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ircd/ircd.c b/ircd/ircd.c
index ef6a577..1d554d9 100644
--- a/ircd/ircd.c
+++ b/ircd/ircd.c
@@ -476,8 +476,10 @@ static void check_pings(struct Event* ev) {
       next_check=expire;
   }
   
-  assert(next_check >= CurrentTime);
-  
+  /* Whatever the settings, let time pass before checking again. */
+  if (next_check <= CurrentTime)
+    next_check = CurrentTime + 1;
+
   Debug((DEBUG_DEBUG, "[%i] check_pings() again in %is",
 	 CurrentTime, next_check-CurrentTime));
   
-- 
2.43.0


From ad3b7813e4269b7dc78ddbee3cae8ebadd3acc55 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:41:44 +0000
Subject: [PATCH 85/95] fix: classes without a send or flood limit took the
 default from the old configuration when reloading

---
 ircd/class.c | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/ircd/class.c b/ircd/class.c
index 927cc88..6bd53fc 100644
--- a/ircd/class.c
+++ b/ircd/class.c
@@ -89,6 +89,28 @@ void free_class(struct ConnectionClass* p)
   }
 }
 
+/** Get the maximum SendQ of a class.
+ * The default is looked up when it is needed: when the class is read, the
+ * feature may still have the value of an old configuration.
+ * @param[in] cl Connection class.
+ * @return Maximum SendQ in bytes.
+ */
+static unsigned int
+class_sendq(const struct ConnectionClass *cl)
+{
+  return MaxSendq(cl) ? MaxSendq(cl) : feature_int(FEAT_DEFAULTMAXSENDQLENGTH);
+}
+
+/** Get the maximum flood of a class; see class_sendq().
+ * @param[in] cl Connection class.
+ * @return Maximum flood in bytes.
+ */
+static unsigned int
+class_flood(const struct ConnectionClass *cl)
+{
+  return MaxFlood(cl) ? MaxFlood(cl) : feature_int(FEAT_CLIENT_FLOOD);
+}
+
 /** Initialize the connection class list.
  * A connection class named "default" is created, with ping frequency,
  * connection frequency, maximum links, max SendQ and max flood values from the
@@ -104,8 +126,8 @@ void init_class(void)
   ConClass(connClassList) = "default";
   PingFreq(connClassList) = feature_int(FEAT_PINGFREQUENCY);
   ConFreq(connClassList)  = feature_int(FEAT_CONNECTFREQUENCY);
-  MaxSendq(connClassList) = feature_int(FEAT_DEFAULTMAXSENDQLENGTH);
-  MaxFlood(connClassList) = feature_int(FEAT_CLIENT_FLOOD);
+  MaxSendq(connClassList) = 0;
+  MaxFlood(connClassList) = 0;
   MaxLinks(connClassList) = 1;
   connClassList->valid    = 1;
   Links(connClassList)    = 1;
@@ -230,10 +252,8 @@ void add_class(char *name, unsigned int ping, unsigned int confreq,
   ConFreq(p) = confreq;
   PingFreq(p) = ping;
   MaxLinks(p) = maxli;
-  MaxSendq(p) = (sendq > 0) ?
-     sendq : feature_int(FEAT_DEFAULTMAXSENDQLENGTH);
-  MaxFlood(p) = (maxfl > 0) ?
-     maxfl : feature_int(FEAT_CLIENT_FLOOD);
+  MaxSendq(p) = sendq;
+  MaxFlood(p) = maxfl;
   p->valid = 1;
 }
 
@@ -269,7 +289,7 @@ report_classes(struct Client *sptr, const struct StatDesc *sd,
   for (cltmp = connClassList; cltmp; cltmp = cltmp->next)
     send_reply(sptr, RPL_STATSYLINE, (cltmp->valid ? 'Y' : 'y'),
                ConClass(cltmp), PingFreq(cltmp), ConFreq(cltmp),
-               MaxLinks(cltmp), MaxSendq(cltmp), MaxFlood(cltmp),
+               MaxLinks(cltmp), class_sendq(cltmp), class_flood(cltmp),
                Links(cltmp) - 1, CCUmode(cltmp) ? CCUmode(cltmp) : "+");
 }
 
@@ -335,7 +355,7 @@ get_sendq(struct Client *cptr)
     return cli_max_sendq(cptr);
 
   if ((cl = class_resolve(cptr))) {
-    cli_max_sendq(cptr) = MaxSendq(cl);
+    cli_max_sendq(cptr) = class_sendq(cl);
     return cli_max_sendq(cptr);
   }
   /* No class resolved: fall back to the feature default WITHOUT caching
@@ -361,7 +381,7 @@ find_max_flood(struct Client *cptr)
     return cli_max_flood(cptr);
 
   if ((cl = class_resolve(cptr))) {
-    cli_max_flood(cptr) = MaxFlood(cl);
+    cli_max_flood(cptr) = class_flood(cl);
     return cli_max_flood(cptr);
   }
   /* See get_sendq(): the feature-default fallback is deliberately not
-- 
2.43.0


From 95125cbe9433acee7a57749ddc70652663e34f80 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:49:47 +0000
Subject: [PATCH 86/95] fix: a malformed connection rule crashed the server

---
 ircd/crule.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/ircd/crule.c b/ircd/crule.c
index 3728417..c95196c 100644
--- a/ircd/crule.c
+++ b/ircd/crule.c
@@ -477,9 +477,11 @@ static int crule_parseorexpr(CRuleNodePtr * orrootp, int *next_tokp, const char*
   while (errcode == CR_NOERR)
   {
     errcode = crule_parseandexpr(&andexpr, next_tokp, ruleptr);
+    if ((errcode == CR_NOERR) && (andexpr == NULL))
+      return (CR_EXPCTAND);
     if ((errcode == CR_NOERR) && (*next_tokp == CR_OR))
     {
-      orptr = (CRuleNodePtr) MyMalloc(sizeof(struct CRuleNode));
+      orptr = (CRuleNodePtr) MyCalloc(1, sizeof(struct CRuleNode));
 #ifdef CR_DEBUG
       fprintf(stderr, "allocating or element at %ld\n", orptr);
 #endif
@@ -537,9 +539,11 @@ static int crule_parseandexpr(CRuleNodePtr * androotp, int *next_tokp, const cha
   while (errcode == CR_NOERR)
   {
     errcode = crule_parseprimary(&primary, next_tokp, ruleptr);
+    if ((errcode == CR_NOERR) && (primary == NULL))
+      return (CR_EXPCTPRIM);
     if ((errcode == CR_NOERR) && (*next_tokp == CR_AND))
     {
-      andptr = (CRuleNodePtr) MyMalloc(sizeof(struct CRuleNode));
+      andptr = (CRuleNodePtr) MyCalloc(1, sizeof(struct CRuleNode));
 #ifdef CR_DEBUG
       fprintf(stderr, "allocating and element at %ld\n", andptr);
 #endif
@@ -616,7 +620,7 @@ static int crule_parseprimary(CRuleNodePtr* primrootp, int *next_tokp, const cha
         errcode = crule_gettoken(next_tokp, ruleptr);
         break;
       case CR_NOT:
-        *insertionp = (CRuleNodePtr) MyMalloc(sizeof(struct CRuleNode));
+        *insertionp = (CRuleNodePtr) MyCalloc(1, sizeof(struct CRuleNode));
 #ifdef CR_DEBUG
         fprintf(stderr, "allocating primary element at %ld\n", *insertionp);
 #endif
@@ -670,7 +674,7 @@ static int crule_parsefunction(CRuleNodePtr* funcrootp, int* next_tokp, const ch
     }
     if ((errcode = crule_gettoken(next_tokp, ruleptr)) != CR_NOERR)
       return (errcode);
-    *funcrootp = (CRuleNodePtr) MyMalloc(sizeof(struct CRuleNode));
+    *funcrootp = (CRuleNodePtr) MyCalloc(1, sizeof(struct CRuleNode));
 #ifdef CR_DEBUG
     fprintf(stderr, "allocating function element at %ld\n", *funcrootp);
 #endif
@@ -737,6 +741,8 @@ static int crule_parsearglist(CRuleNodePtr argrootp, int *next_tokp, const char*
 #endif
         if (currarg[0] != '\0')
         {
+          if (argrootp->numargs >= CR_MAXARGS)
+            return (CR_ARGMISMAT);
           DupString(argelemp, currarg);
           argrootp->arg[argrootp->numargs++] = (void *)argelemp;
         }
@@ -763,6 +769,10 @@ void crule_free(struct CRuleNode** elem)
 {
   int arg, numargs;
 
+  /* an aborted tree may lack operands */
+  if (*elem == NULL)
+    return;
+
   if ((*(elem))->funcptr == crule__not)
   {
     /* type conversions and ()'s are fun! ;)  here have an aspirin.. */
-- 
2.43.0


From 86fa1b178a27268933fb7ae7be3f45ec2f5615ba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:57:27 +0000
Subject: [PATCH 87/95] fix: a port given with an address family was closed by
 the next reload and listened on all families

---
 ircd/ircd_parser.y | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ircd/ircd_parser.y b/ircd/ircd_parser.y
index 753094b..c068fd1 100644
--- a/ircd/ircd_parser.y
+++ b/ircd/ircd_parser.y
@@ -936,7 +936,7 @@ portblock: PORT {
     struct SLink *link;
     link = make_link();
     DupString(link->value.cp, "*");
-    link->flags = 0;
+    link->flags = port;
     link->next = hosts;
     hosts = link;
   }
@@ -967,7 +967,7 @@ portblock: PORT {
     }
     if (link->flags & 65535)
       port = link->flags & 65535;
-    add_listener(port, link->value.cp, pass, tls_ciphers,
+    add_listener(port & 65535, link->value.cp, pass, tls_ciphers,
                  tls_cacertfile, tls_cacertdir, tls_verifypeer, tls_systemca,
                  &flags_here);
   }
-- 
2.43.0


From 82248b1484e2be542ade0651b09c1d22cf62f75b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:05:46 +0000
Subject: [PATCH 88/95] fix: the IAuth processes of all but the last IAuth
 block were leaked by every reload

---
 ircd/s_auth.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index 9d036ba..6a2dc5c 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -1658,6 +1658,8 @@ int auth_spawn(int argc, char *argv[])
       IAuthClr(iauth, IAUTH_CLOSING);
       return 2;
     }
+    /* Whether from before or from another IAuth block, it is replaced. */
+    auth_mark_closing();
     auth_close_unused();
   }
 
-- 
2.43.0


From 8b96a439afd6ca6a59d93f0194a3df6c1f183282 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:16:19 +0000
Subject: [PATCH 89/95] fix: a reload could not replace a port on all addresses
 with the port on one address or the reverse

---
 ircd/listener.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/ircd/listener.c b/ircd/listener.c
index 3eca2f9..163f08b 100644
--- a/ircd/listener.c
+++ b/ircd/listener.c
@@ -309,6 +309,34 @@ static struct Listener* find_listener(int port, const struct irc_in_addr *addr)
   return 0;
 }
 
+/** Close the sockets of listeners which a reload has not (yet) found in
+ * the configuration and which would prevent another one from being opened.
+ * @param[in] listener Listener that is about to be opened.
+ */
+static void close_replaced_listeners(const struct Listener *listener)
+{
+  struct Listener *old;
+
+  for (old = ListenerPollList; old; old = old->next) {
+    if (old == listener
+        || listener_active(old)
+        || old->addr.port != listener->addr.port
+        || (!irc_in_addr_unspec(&old->addr.addr)
+            && !irc_in_addr_unspec(&listener->addr.addr)))
+      continue;
+    if (-1 < old->fd_v4) {
+      close(old->fd_v4);
+      socket_del(&old->socket_v4);
+      old->fd_v4 = -1;
+    }
+    if (-1 < old->fd_v6) {
+      close(old->fd_v6);
+      socket_del(&old->socket_v6);
+      old->fd_v6 = -1;
+    }
+  }
+}
+
 /** Make sure we have a listener for \a port on \a vhost_ip.
  * If one does not exist, create it.  Then mark it as active and set
  * the peer mask, server, and hidden flags according to the other
@@ -422,6 +450,9 @@ void add_listener(int port, const char* vhost_ip, const char* mask,
     listener->tls_systemca = LISTENER_TLS_SYSTEMCA_DEFAULT;
   }
 
+  if (listener->fd_v4 < 0 && listener->fd_v6 < 0)
+    close_replaced_listeners(listener);
+
 #ifdef IPV6
   if (FlagHas(&listener->flags, LISTEN_IPV6)
       && (irc_in_addr_unspec(&vaddr) || !irc_in_addr_is_ipv4(&vaddr))) {
-- 
2.43.0


From 626c312f9c38663a6771121011479070448c2fca Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:17:21 +0000
Subject: [PATCH 90/95] fix: OPER crashed the server after a second Class block
 of the same name dropped its local setting

---
 ircd/client.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/client.c b/ircd/client.c
index 90a60be..2298494 100644
--- a/ircd/client.c
+++ b/ircd/client.c
@@ -192,7 +192,8 @@ client_set_privs(struct Client *client, struct ConfItem *oper, int forceOper)
   else if (!class || FlagHas(&class->privs_dirty, PRIV_PROPAGATE))
     defaults = (!class || FlagHas(&class->privs, PRIV_PROPAGATE)) ? &privs_global : &privs_local;
   else {
-    assert(0 && "Oper has no propagation and neither does connection class");
+    /* Checked when the Operator block is read, but another Class block
+     * with the same name may follow it: grant nothing, then. */
     return;
   }
 
-- 
2.43.0


From 3b58d93a628c70f7c7cd78a2eba20b26b5186549 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:23:11 +0000
Subject: [PATCH 91/95] fix: a Pseudo block whose name no command can have
 crashed the server at the next reload

---
 ircd/parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ircd/parse.c b/ircd/parse.c
index 2ed639b..65e15ee 100644
--- a/ircd/parse.c
+++ b/ircd/parse.c
@@ -831,6 +831,12 @@ msg_tree_parse(char *cmd, struct MessageTree *root)
 int register_mapping(struct s_map *map)
 {
   struct Message *msg;
+  const char *ch;
+
+  /* A name with other characters would never be found again. */
+  for (ch = map->command; *ch; ++ch)
+    if (!IsCommand(*ch))
+      return 0;
 
   if (msg_tree_parse(map->command, &msg_tree))
     return 0;
-- 
2.43.0


From 0f93f0ff7980f2fb38a0ed4c7ad19cfe44cc2d5e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:29:17 +0000
Subject: [PATCH 92/95] fix: connections were dropped for silence without
 having been sent a PING when their class's ping frequency is below half of
 the server's

---
 ircd/ircd.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ircd/ircd.c b/ircd/ircd.c
index 1d554d9..e38d7ff 100644
--- a/ircd/ircd.c
+++ b/ircd/ircd.c
@@ -331,6 +331,7 @@ static void check_pings(struct Event* ev) {
   int expire     = 0;
   int next_check = CurrentTime;
   int max_ping   = 0;
+  int pinged;
   int i;
 
   assert(ET_EXPIRE == ev_type(ev));
@@ -384,6 +385,7 @@ static void check_pings(struct Event* ev) {
     }
 
     max_ping = client_get_ping(cptr);
+    pinged = IsPingSent(cptr);
 
     /* RFC6455 WebSocket Ping keepalive (not IRC PING); interval from features */
     if (MyConnect(cptr) && IsWebsocket(cptr) && IsRegistered(cptr)) {
@@ -443,8 +445,10 @@ static void check_pings(struct Event* ev) {
       continue;
     }
 
-    /* Quit the client after max_ping*2 - they should have answered by now */
-    if (CurrentTime-cli_lasttime(cptr) >= (max_ping*2) )
+    /* Quit the client after max_ping*2 - they should have answered by now,
+     * if they were asked before.
+     */
+    if (pinged && CurrentTime-cli_lasttime(cptr) >= (max_ping*2) )
     {
       /* If it was a server, then tell ops about it. */
       if (IsServer(cptr) || IsConnecting(cptr) || IsHandshake(cptr))
@@ -455,20 +459,21 @@ static void check_pings(struct Event* ev) {
       continue;
     }
     
-    if (!IsPingSent(cptr))
+    if (!pinged)
     {
       /* If we haven't PINGed the connection and we haven't heard from it in a
        * while, PING it to make sure it is still alive.
        */
-      SetPingSent(cptr);
-
       /* If we're late in noticing don't hold it against them :) */
       cli_lasttime(cptr) = CurrentTime - max_ping;
       
-      if (IsUser(cptr))
+      if (IsPingSent(cptr))
+        ; /* the AsLL ping above will do */
+      else if (IsUser(cptr))
         sendrawto_one(cptr, MSG_PING " :%s", cli_name(&me));
       else
         sendcmdto_prio_one(&me, CMD_PING, cptr, ":%s", cli_name(&me));
+      SetPingSent(cptr);
     }
     
     expire = cli_lasttime(cptr) + max_ping * 2;
-- 
2.43.0


From af2e0d759e6eafc8639cb863e3435089bd29f000 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:42:45 +0000
Subject: [PATCH 93/95] fix: a server link could take the numeric of another
 server when it replaced an older link of its name or was made by this server

---
 ircd/m_server.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ircd/m_server.c b/ircd/m_server.c
index 07abd0b..c2a099f 100644
--- a/ircd/m_server.c
+++ b/ircd/m_server.c
@@ -411,6 +411,18 @@ check_loop_and_lh(struct Client* cptr, struct Client *sptr, time_t *ghost, const
     }
   }
 
+  /* The loop above may have ended without a look at the numeric. */
+  if (numnick && (acptr = FindNServer(numnick))
+      && 0 != ircd_strcmp(cli_name(acptr), host))
+  {
+    sendcmdto_serv_butone(&me, CMD_WALLOPS, cptr,
+                          ":SERVER Numeric Collision: %s != %s",
+                          cli_name(acptr), host);
+    return exit_client_msg(cptr, cptr, &me,
+        "NUMERIC collision between %s and %s."
+        " Is your server numeric correct ?", host, cli_name(acptr));
+  }
+
   if (active_lh_line != ALLOWED)
   {
     if (!LHcptr)
-- 
2.43.0


From 6281f4586e54f7fba995cbfffad6591ee19ccc30 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:57:46 +0000
Subject: [PATCH 94/95] fix: do not accept a host name that is empty or starts
 with a colon

The name is sent as a middle parameter of N and others; one that starts
with a colon swallows the rest of the message, so that other servers do
not learn of the user.
---
 ircd/s_auth.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index 6a2dc5c..6a49834 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -667,6 +667,11 @@ auth_verify_hostname(const char *host, int maxlen)
 {
   int i;
 
+  /* An empty name, or one that would start a trailing parameter, cannot
+   * be sent as a parameter of a message. */
+  if (!host[0] || host[0] == ':')
+    return 0;
+
   /* Walk through the host name */
   for (i = 0; host[i]; i++)
     /* If it's not a hostname character or if it's too long, return false */
-- 
2.43.0


From 74ee50ccedfaa01b210611bd00ea87162f8e6958 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:57:46 +0000
Subject: [PATCH 95/95] fix: do not read DNS records beyond the end of the
 reply

The data of an A or AAAA record was used even if the reply ended within
it, so that the rest came from an earlier packet or from past the end of
the buffer.
---
 ircd/ircd_res.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ircd/ircd_res.c b/ircd/ircd_res.c
index 5a5a572..92d8a19 100644
--- a/ircd/ircd_res.c
+++ b/ircd/ircd_res.c
@@ -824,6 +824,10 @@ proc_answer(struct reslist *request, HEADER* header, char* buf, char* eob)
     rd_length = irc_ns_get16(current);
     current += RDLENGTH_SIZE;
 
+    /* The record must not reach beyond the end of the reply. */
+    if (rd_length > eob - (char *)current)
+      return(0);
+
     /*
      * Wait to set request->type until we verify this structure
      */
-- 
2.43.0

