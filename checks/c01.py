from chanrun import ChanCheck

PROP = {
    "id": "C01",
    "title": "A user enters a channel exactly when the channel's entry rules allow it",
    "statement": "A JOIN succeeds if and only if the channel's modes, user limit, key, bans, registration requirement and outstanding invitations "
                 "admit that user at that moment; a refused user learns the right reason and is not in the channel for anyone on any server. "
                 "A successful JOIN is announced to every member entitled to see it, and the first user of a new channel becomes its operator.",
    "quantifier": {"over": ["histories", "inputs"],
                   "text": "all histories of joins (with keys, lists, JOIN 0), parts, kicks, invitations, nick changes, account logins, ban and mode "
                           "changes by up to six users on three channels over one to three linked servers"},
    "why_tests_cant": "The suite exercises TLS-only and a few join forms; the decision depends on the whole history of modes, bans, invitations, "
                      "accounts and limits, which only generated histories against a reference model cover.",
    "anchors": {
        "files": ["ircd/m_join.c", "ircd/channel.c", "ircd/m_invite.c", "ircd/m_part.c"],
        "mechanism": [{"name": "entry decision", "where": "ircd/m_join.c m_join()"},
                      {"name": "ban matching", "where": "ircd/channel.c find_ban(), is_banned()"},
                      {"name": "invitations", "where": "ircd/channel.c add_invite(), del_invite(), IsInvited()"},
                      {"name": "join propagation", "where": "ircd/channel.c joinbuf_join(), joinbuf_flush(); ircd/m_join.c ms_join()"}],
        "observe_at": ["lines received by every user after each operation", "NAMES on every server at the end of the history"],
    },
}


class CHECK(ChanCheck):
    RULE = ("a generated history in which at least one JOIN was refused and at least one restricted or invited JOIN was decided "
            "(two different entry-rule outcomes seen)")
    QUICK, THOROUGH = 7000, 150000
    VARIANT = "plain"
    WEIGHTS = dict(join=22, joinkey=8, joinmulti=5, part=8, partmsg=0, join0=2, kick=5, topic=0, topicq=0, invite=10, nick=3, quit=2, conn=3, away=0,
                   umode=0, msg=0, pm=0, multimsg=0, wall=0, mode=5, modearg=6, modeq=0, banq=0, namesq=0, acct=3, gate=22)
    POPULATE = .3
    BOSSY = .8
    NCHANS = 2
    LENGTH = (20, 60)
    JUDGED_OPS = {"join", "join0", "part"}
    SWEEP_KINDS = {"NAMES"}

    def judged(self, op, fact):
        return fact[0] in ("JOIN", "PART", "NAMES") or (fact[0] == "num" and fact[1][0] == "4")

    def nontrivial(self, m):
        return len([l for l in m.labels if l.startswith("join-")]) >= 2
