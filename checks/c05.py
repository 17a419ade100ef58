from viewrun import ViewCheck

PROP = {
    "id": "C05",
    "title": "What a member was told always adds up to what its server answers",
    "statement": "The membership, operator and voice status, modes, bans and topic a client can rebuild from the events it was sent since joining a channel always "
                 "equal what its server answers when asked, whatever the interleaving of users, servers, services and network splits. "
                 "No client is told of an event in a channel it is not in, or about a user it was never told of.",
    "quantifier": {"over": ["histories", "schedules", "fault_sequences"],
                   "text": "all histories of channel commands by six users, operators and a services server over one to three servers, with arbitrary "
                           "delivery delays between servers, dropped clients, splits and rejoins"},
    "why_tests_cant": "It is an invariant over every interleaving of events; each command has its own announcement code, and a missing or duplicate "
                      "announcement in one path (a split, a forced mode, a hidden join) shows only in histories that reach it.",
    "anchors": {
        "files": ["ircd/channel.c", "ircd/send.c", "ircd/m_burst.c", "ircd/m_join.c", "ircd/m_kick.c", "ircd/m_nick.c", "ircd/s_misc.c", "ircd/m_clearmode.c", "ircd/m_opmode.c"],
        "mechanism": [{"name": "mode announcements", "where": "ircd/channel.c modebuf_flush_int()"},
                      {"name": "membership announcements", "where": "ircd/channel.c joinbuf_join(), RevealDelayedJoin(); ircd/m_kick.c"},
                      {"name": "merge of two channel states", "where": "ircd/m_burst.c ms_burst()"},
                      {"name": "departure", "where": "ircd/s_misc.c exit_client()"}],
        "observe_at": ["every line each client receives", "NAMES, MODE, ban list and TOPIC answers"],
    },
}


class CHECK(ViewCheck):
    RULE = "a history with at least 20 channel events and at least four complete comparisons of rebuilt state with the server's answers"
    QUICK, THOROUGH = 12000, 250000
