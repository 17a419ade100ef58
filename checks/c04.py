from chanrun import ChanCheck

PROP = {
    "id": "C04",
    "title": "Private messages reach exactly the addressee, subject to the addressee's filters",
    "statement": "A private message or notice is delivered once and unaltered to the user holding the target nickname at that moment, wherever connected, "
                 "and to nobody else. It is withheld if and only if the addressee's silence list, registered-only mode or common-channels mode excludes the "
                 "sender, and an away addressee's away text is returned.",
    "quantifier": {"over": ["histories", "inputs"],
                   "text": "all histories of messages (single and multiple targets), nick changes, silence masks and exceptions, user modes, away changes, "
                           "channel membership and account logins by up to six users over one to three servers"},
    "why_tests_cant": "Delivery depends on the filters and nicknames accumulated over a history and on silence propagation between servers; "
                      "the suite never tests SILENCE, +R or +c on users.",
    "anchors": {
        "files": ["ircd/ircd_relay.c", "ircd/m_silence.c", "ircd/s_user.c", "ircd/m_away.c", "ircd/m_privmsg.c"],
        "mechanism": [{"name": "private relay", "where": "ircd/ircd_relay.c relay_private_message(), relay_private_notice(), server_relay_private_message()"},
                      {"name": "silence", "where": "ircd/s_user.c is_silenced(); ircd/m_silence.c apply_silence()"},
                      {"name": "common channels", "where": "ircd/ircd_relay.c commonchans_drop()"}],
        "observe_at": ["lines received by every user on every server after each message"],
    },
}


class CHECK(ChanCheck):
    RULE = "a history with at least one delivered and at least one filtered private message (or one answered with an away text)"
    QUICK, THOROUGH = 7000, 150000
    VARIANT = "plain"
    WEIGHTS = dict(join=6, joinkey=0, joinmulti=0, part=2, partmsg=0, join0=1, kick=1, topic=0, topicq=0, invite=2, nick=7, quit=3, conn=4, away=6,
                   umode=8, msg=0, pm=30, multimsg=6, wall=0, mode=1, modearg=0, modeq=0, banq=0, namesq=0, acct=3, silence=10)
    JUDGED_OPS = {"pm", "multimsg", "silence", "away", "invite"}
    FINAL_SWEEP = False

    def judged(self, op, fact):
        if fact[0] in ("PRIVMSG", "NOTICE"):
            return fact[2].lstrip("@+")[:1] not in ("#", "&")
        return fact[0] in ("SILENCE", "INVITE") or (fact[0] == "num" and fact[1] in ("301", "401", "477", "404", "305", "306", "271"))

    def nontrivial(self, m):
        return "pm-delivered" in m.labels and bool({"pm-block-R", "pm-block-c", "pm-silenced", "pm-away"} & m.labels)
