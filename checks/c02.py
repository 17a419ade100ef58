from chanrun import ChanCheck

PROP = {
    "id": "C02",
    "title": "Channel speech reaches exactly the entitled listeners, exactly once",
    "statement": "A message or notice to a channel (or to its operators or voiced users) is delivered once, unaltered, to every member entitled to hear it "
                 "on every server and to nobody else; it is delivered if and only if the channel's modes, bans and the sender's status let the sender speak. "
                 "A sender who may not speak is told so, and nobody hears anything.",
    "quantifier": {"over": ["histories", "inputs"],
                   "text": "all histories of joins, mode and ban changes, deafness, account logins and messages of any text by up to six users over one to three servers"},
    "why_tests_cant": "Who hears a message depends on membership, per-server routing, modes, bans, deafness and hidden joins accumulated over a history; "
                      "tests look at single fixed exchanges on one server.",
    "anchors": {
        "files": ["ircd/ircd_relay.c", "ircd/send.c", "ircd/channel.c", "ircd/m_wallchops.c", "ircd/m_wallvoices.c"],
        "mechanism": [{"name": "permission to speak", "where": "ircd/channel.c member_can_send_to_channel(), client_can_send_to_channel()"},
                      {"name": "fan-out once per member and per link", "where": "ircd/send.c sendcmdto_channel_butone()"},
                      {"name": "relay", "where": "ircd/ircd_relay.c relay_channel_message(), server_relay_channel_message()"}],
        "observe_at": ["lines received by every user on every server after each message"],
    },
}


class CHECK(ChanCheck):
    RULE = "a history with at least one delivered channel message and at least one refused, deaf-skipped or restricted (operators/voiced only) one"
    QUICK, THOROUGH = 7000, 150000
    VARIANT = "plain"
    WEIGHTS = dict(join=8, joinkey=1, joinmulti=1, part=2, partmsg=0, join0=0, kick=2, topic=0, topicq=0, invite=0, nick=2, quit=1, conn=2, away=0,
                   umode=5, msg=24, pm=0, multimsg=5, wall=7, mode=6, modearg=9, modeq=0, banq=0, namesq=0, acct=2, gate=6)
    JUDGED_OPS = {"msg", "multimsg", "wall"}
    FINAL_SWEEP = False

    def judged(self, op, fact):
        if fact[0] in ("PRIVMSG", "NOTICE"):
            return fact[2].lstrip("@+")[:1] in ("#", "&")
        return fact[0] == "num" and fact[1] in ("404", "403")

    def nontrivial(self, m):
        return bool({"speech-delivered", "wall-delivered"} & m.labels) and bool(
            {"speech-denied", "deaf-skip", "speech-denied-c", "speech-denied-C", "wall-delivered"} & m.labels)
