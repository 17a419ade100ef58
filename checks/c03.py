from chanrun import ChanCheck

PROP = {
    "id": "C03",
    "title": "Only channel operators change a channel, and each change takes exact effect",
    "statement": "Mode, ban, key, limit, operator, voice, topic, kick and invitation commands change a channel only when issued by someone entitled to, "
                 "and then with exactly the documented effect, seen identically by every member on every server. "
                 "A command from anyone else changes nothing and is answered with an error.",
    "quantifier": {"over": ["histories", "inputs"],
                   "text": "all histories of MODE strings (any letters, signs, argument lists), bans, KICK, TOPIC and INVITE by users with and without "
                           "operator status over one to three servers"},
    "why_tests_cant": "Mode strings combine freely (cancelling signs, overlapping bans, missing arguments, argument limits) and their effect depends on "
                      "earlier state; the suite has no test of MODE, KICK, TOPIC or INVITE semantics at all.",
    "anchors": {
        "files": ["ircd/channel.c", "ircd/m_mode.c", "ircd/m_kick.c", "ircd/m_topic.c", "ircd/m_invite.c"],
        "mechanism": [{"name": "mode parsing and permission", "where": "ircd/channel.c mode_parse() and its helpers"},
                      {"name": "mode broadcast", "where": "ircd/channel.c modebuf_flush_int()"},
                      {"name": "ban list maintenance", "where": "ircd/channel.c apply_ban(), mode_process_bans()"},
                      {"name": "kick", "where": "ircd/m_kick.c m_kick(), ms_kick()"}],
        "observe_at": ["lines received by every user after each command", "MODE, ban list, TOPIC and NAMES answers on every server at the end"],
    },
}


class CHECK(ChanCheck):
    RULE = "a history with at least one accepted change and at least one refused one"
    QUICK, THOROUGH = 7000, 150000
    VARIANT = "plain"
    WEIGHTS = dict(join=8, joinkey=1, joinmulti=0, part=2, partmsg=0, join0=0, kick=8, topic=8, topicq=2, invite=6, nick=2, quit=1, conn=2, away=0,
                   umode=0, msg=0, pm=0, multimsg=0, wall=0, mode=18, modearg=24, modeq=3, banq=3, namesq=0, acct=1)
    JUDGED_OPS = {"kick", "topic", "invite", "mode", "modeq", "banq"}
    SWEEP_KINDS = {"NAMES", "MODEIS", "BANS", "331", "332", "333"}

    def nontrivial(self, m):
        return bool({"mode-changed", "kick", "topic-set", "invite"} & m.labels) and bool({"mode-denied", "kick-denied", "topic-denied"} & m.labels)
