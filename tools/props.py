NOTE = "Seeded search over simulated executions of the real server code; a clean run covers the executions explored. Trusts the simulated kernel (sockets, epoll/poll, clock, files) to behave like Linux for the calls ircd makes."
PROPS = []
NA = {}
def P(id, title, statement, over, text, why, files, mech, tech, note=NOTE, **k):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=["ircd/" + f if "/" not in f else f for f in files], mech=mech, tech=tech, note=note, **k))

P("C01", "Linked servers converge to one network state",
  "Whatever clients do concurrently on several linked servers, once the network is quiet every server knows the same servers, links, users (nick, user, host, modes, account, whether away) and channels (members, operator and voice status, modes, key, limit, bans, topic). After links break, servers crash and restart or stall, and everything heals, the links come back within a bounded time and all servers again agree; each user known anywhere is a really connected client, on the server it is connected to, in exactly the channels it joined.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of client commands on up to four servers with any message delays, link resets, partitions, server crashes and stalls, followed by healing",
  "The tests drive one ordering per scenario on at most two real servers; agreement must hold for every crossing of messages and every place a link can fail.",
  ["m_burst.c", "s_serv.c", "m_create.c", "m_join.c", "m_part.c", "m_kick.c", "m_mode.c", "m_nick.c", "channel.c", "s_misc.c", "m_squit.c", "m_server.c", "m_endburst.c"],
  [("burst of the full state to a new link", "ircd/s_serv.c server_estab"), ("merging a channel by creation time", "ircd/m_burst.c ms_burst"), ("removing everything behind a lost link", "ircd/s_misc.c exit_client"), ("bouncing or accepting remote mode changes", "ircd/channel.c mode_parse")],
  "whole-network simulation, state of every server dumped through a probe link and compared")
P("C02", "What a client is told adds up to what the server answers",
  "For every connected client, the events it was sent about a channel it is on (joins, parts, quits, kicks, nick changes, mode and topic changes) add up exactly to the membership, prefixes, modes and topic the server reports when asked. No event is repeated, missing or about a user who is not there.",
  ["schedules", "histories", "fault_sequences"], "all concurrent command sequences of clients on one to three servers, with network splits and merges in between, any segmentation and delay",
  "Tests look at selected lines of selected sequences; the stream must be consistent at every point of every history.",
  ["channel.c", "send.c", "m_join.c", "m_part.c", "m_quit.c", "m_kick.c", "m_nick.c", "m_topic.c", "m_burst.c", "s_user.c", "m_names.c"],
  [("fan-out of channel events to local members", "ircd/send.c sendcmdto_channel_butserv_butone"), ("fan-out to users sharing a channel, once each", "ircd/send.c sendcmdto_common_channels_butone"), ("mode buffers flushed to users and servers", "ircd/channel.c modebuf_flush_int")],
  "each client folds its event stream; invariant checked per event and against NAMES/MODE/TOPIC at rest")
P("C03", "Conflicts between servers are settled by age alone, the same everywhere",
  "When two users hold one nick - by a new user, a nick change or a link bringing both - the older one wins if they differ in user name or address, the newer one if they are the same, and both lose if equally old. The loser is removed from the whole network, told why, and no one else is; an unregistered connection never holds a nick against a user, and a local user asking for a nick in use is refused. When a link brings a channel that exists, the older creation wins: modes, key, limit, bans, topic and status of the newer one are dropped, and members the winning modes would have kept out are removed; equally old ones are united (secret over private, smaller key, lower limit, newer topic, all bans and status). Newcomers to an older channel get no status from a younger claim. Commands crossing on a link end the same way, and every server reaches the same result.",
  ["histories", "schedules", "inputs"], "all sequences of conflicting nicks and channels of any relative age, brought by a scripted server link, a healed split of real servers or commands crossing on a link, on one to three servers",
  "The outcome is a function of two histories; tests check a few collisions brought by one scripted peer.",
  ["m_nick.c", "s_user.c", "m_burst.c", "m_create.c", "m_join.c", "channel.c", "s_misc.c", "m_kill.c", "s_serv.c"],
  [("nick collision rules", "ircd/m_nick.c ms_nick, ircd/s_user.c set_nick_name"), ("merging a channel by creation time", "ircd/m_burst.c ms_burst"), ("removing users a winning channel would not admit", "ircd/m_burst.c"), ("late creation and joins", "ircd/m_create.c ms_create, ircd/m_join.c ms_join")],
  "reference model of the conflict rules predicts the whole network state from the states before; compared with the dump of every server")
P("C04", "Messages are delivered exactly once, in order, to the entitled",
  "A private or channel message is delivered at most once to each recipient, unaltered, under the sender's name, in the order the sender sent it, and only to members of the channel or to the addressed user. If no link fails, every message accepted from a member of an unrestricted channel reaches every other member that stayed, and every private message reaches its target.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of messages with joins, parts, nick changes, disconnects, backpressure, link failures and crashes on up to four servers",
  "Exactly-once and ordering across relays and partial writes depend on timing the tests never vary.",
  ["ircd_relay.c", "send.c", "msgq.c", "m_privmsg.c", "m_notice.c", "s_bsd.c", "packet.c"],
  [("per-client send queue with partial-write bookkeeping", "ircd/msgq.c msgq_delete"), ("one copy per link and member", "ircd/send.c sendcmdto_channel_butone"), ("line reassembly from the socket", "ircd/packet.c server_dopacket, ircd/dbuf.c")],
  "every message carries an identifier; delivery checked online and per quiet epoch")
P("C05", "Channel operations are decided by the channel's rules alone",
  "Only a channel operator changes modes, kicks or invites. A user gets into a channel only if the key, limit, bans, invite-only, registered-only and TLS-only modes let him, or he was invited. Speaking is refused to a user whom +n, +m, +M, +r, +Z or a ban excludes, and for text that +c or +C forbids; +t keeps the topic for operators; a banned or silenced member cannot change nick. A refused request is answered with the matching error and changes nothing; an accepted one takes effect identically on every server and is shown to each member exactly once, whichever server the parties are on.",
  ["inputs", "histories", "schedules"], "all sequences of joins, parts, kicks, mode changes, bans, invitations, topics, messages and nick changes by three to six users of one or two channels on one to three servers",
  "The rules interact; a handful of scripted mode combinations cannot cover the product of modes, status, account, TLS, bans, keys, limits and invitations along a history.",
  ["channel.c", "m_join.c", "m_mode.c", "m_kick.c", "m_invite.c", "m_topic.c", "m_part.c", "m_privmsg.c", "ircd_relay.c", "s_user.c", "m_nick.c"],
  [("entry rules", "ircd/m_join.c m_join"), ("mode parser and its permission checks", "ircd/channel.c mode_parse"), ("who may speak", "ircd/channel.c member_can_send_to_channel, client_can_send_to_channel"), ("ban matching", "ircd/channel.c find_ban")],
  "reference model of channels run in step with the servers; every refusal, event and resulting state compared")
P("C08", "Only authorised servers link, and every server sees the same tree of servers",
  "A server is admitted only with a name, address and password (and certificate fingerprint) of one Connect block, the supported protocol, a credible timestamp, on a server port, and when neither a jupe nor a CRule forbids it; one that is refused learns nothing, and no name or number is ever held by two servers. Behind a link only the servers that its leaf, hub mask and maxhops settings allow may appear, at any distance. When a server appears by a second path the loop is broken, and after links come up, break, are removed by SQUIT or found to be duplicates, every server agrees on the same tree of servers - each with one uplink and the right distance - and on exactly the users behind them. A removal that refers to an earlier link of a server has no effect on the present one.",
  ["histories", "schedules", "inputs"], "all sequences of link attempts with right and wrong identities, introductions (allowed, forbidden, duplicate in name or number, older and younger), departures, removals and losses of links on one to three servers",
  "Loop resolution and removals are decided by timestamps of links on several servers at once; tests link one scripted peer to one server.",
  ["m_server.c", "s_serv.c", "m_squit.c", "s_misc.c", "s_conf.c", "crule.c", "m_links.c", "jupe.c", "numnicks.c"],
  [("admission of a server", "ircd/m_server.c mr_server"), ("loops, leaf and hub limits", "ircd/m_server.c check_loop_and_lh"), ("announcing and removing servers", "ircd/m_server.c ms_server, ircd/m_squit.c ms_squit, ircd/s_misc.c exit_client"), ("connection rules", "ircd/crule.c")],
  "a model of the tree of servers, compared after every step with LINKS and ISON on every server; every admission compared with the rules of the Connect blocks")
P("C09", "A connection is registered once, after everything required, or closed",
  "A client is welcomed exactly once, only after it sent NICK, USER and the requested PONG, ended its capability negotiation, gave the password its port requires, was accepted by the authorization helper if one is required, and matched no Kill block; its user and host name are the ones the ident server, a confirmed DNS answer or the helper gave, else its own name (marked ~ when ident was asked) and its address. Until then nothing it sends reaches other users. A client that did everything is not turned away, whatever the order and timing. Every other connection is closed within a bounded time. Nothing a resolver, ident server, helper or client sends or fails to send crashes the server, delays it for ever, leaks a descriptor or disturbs other connections.",
  ["inputs", "schedules", "fault_sequences"], "all orders and timings of registration commands of concurrent plain and TLS connections, with every behaviour of DNS server, ident server and authorization helper",
  "Registration is a set of independent asynchronous lookups whose completions can cross in any order; tests register against instantly answering or absent services.",
  ["s_auth.c", "ircd_res.c", "s_user.c", "s_bsd.c", "m_user.c", "m_nick.c", "m_cap.c", "s_conf.c"],
  [("pending flags and completion", "ircd/s_auth.c check_auth_finished"), ("helper protocol", "ircd/s_auth.c iauth_parse"), ("DNS replies", "ircd/ircd_res.c res_readreply"), ("ident", "ircd/s_auth.c read_auth_reply")],
  "scripted connections against scripted resolver, ident server and helper; the outcome of every connection compared with the rule")
P("C10", "Dead or stuck connections are dropped in time, live ones never",
  "A registered connection that has sent nothing for its class's ping frequency is asked for a sign of life within PINGFREQUENCY seconds more, and is dropped with 'Ping timeout' once it has stayed silent for one more ping frequency, never sooner and never without having been asked. Anything it sends counts as a sign of life: a PONG however late, a command, a single byte, a WebSocket control frame; a connection that keeps sending is never dropped. The same holds on server links: a link that goes silent is given up within a bounded time, a shorter silence does no harm, and a lost link comes back. WebSocket clients are sent keepalive frames as configured. A connection that does not read keeps everything queued for it, in order and complete, until the queue exceeds its class's limit, and is then dropped with 'Max sendQ exceeded'; nobody else loses anything by it and the server does not spin on it. Whoever is dropped is shown leaving with the reason.",
  ["schedules", "fault_sequences", "histories"], "all schedules of clients on plain, TLS and WebSocket connections and of linked servers answering, staying silent, answering late, dripping bytes, stopping and resuming reading, under any ping frequency and queue limit, with delays, segmentation, silent links and clock jumps",
  "It is a statement about time under every pattern of traffic; tests use one client and a few seconds.",
  ["ircd.c", "s_bsd.c", "send.c", "packet.c", "m_pong.c", "m_ping.c", "websocket.c", "msgq.c", "class.c", "s_misc.c"],
  [("ping checks", "ircd/ircd.c check_pings"), ("signs of life", "ircd/s_bsd.c read_packet"), ("queue limits", "ircd/send.c send_buffer, dead_link, kill_highest_sendq"), ("WebSocket keepalive", "ircd/websocket.c websocket_send_keepalive_ping")],
  "simulated days per run with virtual clock; timing of every ping and disconnection checked against each party's recorded wire activity")
P("C13", "Connection limits count exactly the live connections",
  "A connection is refused as reconnecting too fast exactly when its address (for IPv6 its /64, or its /48 against a limit of its own) has made the configured number of attempts, none later than the configured period after the one before, and the server has been up longer than its grace period. It is refused as one too many from its host, or because its class is full (clients and operators alike), exactly when as many as allowed are there; users of other servers at the same address count too. A place is free again as soon as its holder is gone, however it left, and the counts stay exact through nick collisions, splits, merges and rehashes. Addresses exempt from the check are neither throttled nor counted. A user behind a WEBIRC or forwarding gateway is counted under and shown with its own address, and nobody can claim an address without the gateway's credentials.",
  ["histories", "fault_sequences", "schedules"], "all sequences of connections and departures of every kind from IPv4 and IPv6 addresses on one or two servers and a scripted one, with rehashes, splits and long waits",
  "Counts drift only after particular sequences of arrivals and departures, and expiries span hours; tests make a few connections.",
  ["IPcheck.c", "s_conf.c", "s_bsd.c", "s_auth.c", "websocket.c", "m_webirc.c", "s_misc.c", "m_oper.c", "s_user.c"],
  [("attempts and connections per address", "ircd/IPcheck.c ip_registry_check_local, ip_registry_disconnect"), ("undoing a count for failed registrations", "ircd/IPcheck.c ip_registry_connect_fail"), ("limits per address and class", "ircd/s_conf.c attach_iline, attach_conf"), ("gateways", "ircd/s_auth.c auth_spoof_user, ircd/websocket.c")],
  "reference model of connections and attempts per address run in step with the servers; every acceptance, refusal and announced count compared")
P("C14", "Network bans take effect everywhere and only while active",
  "G-lines, channel bans (BADCHAN) and server jupes are set, changed and removed only by operators holding the privilege for it (local or global), within the limits on mask width and number of users hit, or by a services server. While the servers are linked, and again after every split heals, all servers list the same global records, the newest change winning. While a record is active on a server, every matching user there is disconnected and matching newcomers are refused, matching channels cannot be joined or created by users, and a juped server is unlinked and refused; nobody and nothing else is affected. A record has no effect once it expired or was deactivated, locally or globally, and takes effect again when reactivated; local records stay on their server.",
  ["histories", "schedules", "fault_sequences"], "all sequences of setting, changing, activating, deactivating and expiring bans on one to three servers, with users coming and going, link splits, merges and restarts",
  "Conflict resolution between records changed on both sides of a split, and expiry racing with reactivation, depend on histories and clocks that tests do not explore.",
  ["gline.c", "jupe.c", "m_gline.c", "m_jupe.c", "s_serv.c", "s_conf.c", "m_join.c", "s_auth.c", "m_server.c"],
  [("adding, modifying and propagating a G-line", "ircd/gline.c gline_add, gline_modify"), ("applying a G-line to connected users", "ircd/gline.c do_gline"), ("refusing newcomers", "ircd/s_conf.c find_kill"), ("jupes", "ircd/jupe.c jupe_add, do_jupe"), ("burst and resynchronisation", "ircd/gline.c gline_burst, gline_resend")],
  "reference model of ban records run in step with the servers; lists, refusals and disconnections compared")
P("C15", "Queries show exactly what the asker may see",
  "NAMES, LIST, WHO, WHOIS, TOPIC, MODE, USERHOST, USERIP, ISON, LUSERS and WHOWAS answer every user and operator, at any time and on any server, with the current truth, complete and without duplicates, minus what is hidden from the asker: members, topic and modes of secret and private channels he is not on; invisible users he shares no channel with when he asks by wildcard; members not yet shown in delayed-join channels; channel keys from those not in the channel; idle times and server names when hidden by configuration. The real host and address of a logged-in user who hides his host reaches no other ordinary user in any line. A LIST that takes long while channels come and go shows every channel that existed throughout, and ends once.",
  ["histories", "schedules", "inputs"], "all sequences of channel, mode, account, away and nick changes on one or two servers, with every form of the queries asked by users and operators inside and outside of the channels",
  "What may be shown depends on the joint state of asker, user and channel; tests check single queries in one state.",
  ["m_who.c", "m_whois.c", "m_names.c", "m_list.c", "m_userhost.c", "m_userip.c", "m_ison.c", "m_lusers.c", "m_whowas.c", "whowas.c", "whocmds.c", "m_topic.c", "m_mode.c", "hash.c", "channel.c", "s_user.c"],
  [("visibility of channels and users", "ircd/channel.c, include/channel.h ShowChannel"), ("incremental channel list", "ircd/hash.c list_next_channels"), ("WHO filtering and fields", "ircd/m_who.c, ircd/whocmds.c do_who"), ("hidden hosts", "ircd/s_user.c hide_hostmask"), ("nick history", "ircd/whowas.c")],
  "reference model of users, channels and visibility; every answer compared, every line to others searched for hidden addresses")
P("C16", "Logins come only from the login service and reach the right user",
  "A connection is logged in exactly when the login service says so: by completing the SASL exchange that connection itself started and has neither aborted, let time out nor replaced, or by an account message from the service for that user. A reply for another session, a stale or forged cookie, or from anything else changes nothing, and one session's challenge, success or failure is shown to the client it belongs to and no other. The account a user has, with its id and flags as last set by the service, is the same on every server, in WHOIS and WHO, in account-notify, extended-join and account-tag, and in the hidden host; it is never lost or changed by nick changes, splits and merges. SASL is offered, and clients are told of it coming and going, exactly while it is configured and the service is linked.",
  ["histories", "schedules", "inputs"], "all interleavings of SASL exchanges, aborts, timeouts, disconnects, service replies (right, stale, forged, late), service splits and account messages for several clients on one or two servers",
  "A login is an asynchronous exchange over three parties; the wrong-session and stale-reply cases need crossings that the scripted tests do not produce.",
  ["m_authenticate.c", "s_user.c", "s_auth.c", "m_account.c", "m_xreply.c", "m_cap.c", "m_whois.c", "whocmds.c", "m_join.c", "send.c"],
  [("SASL session and its cookie", "ircd/m_authenticate.c m_authenticate"), ("service replies", "ircd/m_xreply.c"), ("account set by the service", "ircd/m_account.c ms_account"), ("hidden host", "ircd/s_user.c hide_hostmask"), ("capability notifications", "ircd/m_cap.c")],
  "reference model of sessions and accounts run in step with servers, clients and a scripted login service")
P("C20", "No client input harms the server or other users",
  "Whatever bytes any number of clients send, on plain, TLS or WebSocket connections, before or after registering, in any segmentation, with any abrupt close, stall or refused memory, the server never crashes, hangs or disturbs other users and links: bystanders keep exchanging messages, servers stay linked, new clients can register. Every line sent to any client is well formed, at most 512 bytes (plus tags) and from a source the client can know of. No client gains operator status, an account or another name by it, and all servers still agree afterwards.",
  ["inputs", "schedules", "fault_sequences"], "all byte streams of generated and mutated commands from several hostile clients at once, together with any scheduling and transport faults",
  "The input space is unbounded; tests send fixed well-formed commands.",
  ["parse.c", "packet.c", "s_bsd.c", "websocket.c", "m_cap.c", "m_who.c", "m_mode.c", "channel.c", "ircd_reply.c", "ircd_snprintf.c", "send.c", "s_user.c", "m_ping.c", "m_pong.c"],
  [("client command parsing and dispatch", "ircd/parse.c parse_client"), ("line reassembly", "ircd/packet.c connect_dopacket, client_dopacket"), ("WebSocket framing", "ircd/websocket.c"), ("output formatting", "ircd/send.c, ircd/ircd_reply.c")],
  "generated hostile clients against real servers under ASan/UBSan with bystanders and link peers checking what they see")
P("C17", "Each client gets exactly the protocol extensions it negotiated",
  "What a client is sent depends on the capabilities it has negotiated, at that point of its stream, and on nothing else. A CAP REQ is granted as a whole or refused as a whole without any change; the lists the server shows (LS, LIST, ACK) are those that are available and in force; a client that starts negotiating is registered only once it ends it. Time and account tags, TAGMSG, client-only (+) tags, AWAY, ACCOUNT and CHGHOST notices, other users' invitations, extended JOINs, its own messages back and full host masks in NAMES reach every client in a position to see them that enabled the matching capability, on any server, with true values, and never a client that did not. Client-only tags reach their recipients on the sender's server only with the message they were attached to, and only if configured to be allowed.",
  ["schedules", "inputs", "histories"], "all capability negotiations (before and after registration, withdrawals, disabled capabilities) by several clients on one or two servers, over plain and WebSocket connections, interleaved with messages, notices and status changes, including messages in flight while a capability is switched",
  "Tests check capabilities one at a time on an idle server; each line must have the right form for each recipient whatever was handled before it and whatever the other recipients negotiated.",
  ["m_cap.c", "msg_tag.c", "send.c", "parse.c", "m_tagmsg.c", "ircd_relay.c", "m_away.c", "m_account.c", "m_join.c", "m_names.c", "m_invite.c", "s_user.c"],
  [("capability negotiation", "ircd/m_cap.c cap_req, send_caplist"), ("choice of tags and form per recipient", "ircd/send.c send_buffer, sendcmdto_capflag_common_channels_butone; ircd/msg_tag.c"), ("relaying of TAGMSG and echoes", "ircd/ircd_relay.c"), ("client tag filter", "ircd/msg_tag.c msg_tag_filter_client")],
  "reference model of each client's negotiated form, checked on every line at its place in the stream, and per-step expectations of exactly which lines each client must get")
P("C18", "Unwanted messages are stopped, all others arrive once",
  "A private message, notice or TAGMSG reaches its recipient once, unless the recipient silenced the sender (a mask of its list matches any of the sender's hosts and no exception does), refuses senders without an account (+R, sender is told except for notices), or accepts only people on a common channel (+c); operators are exempt from +R and +c. A message to a channel reaches every other member once who is not deaf, on every server, if and only if the sender may speak there; WALLCHOPS and WALLVOICES reach only operators (and voiced members), CPRIVMSG and CNOTICE only members of the named channel and only from its operators or voiced members. The sender of a message to someone who is away is told the away text. A silence list holds what was put in, up to its limit; nick@server reaches only services.",
  ["schedules", "inputs", "histories"], "all sequences of messages of each kind between users and channels on one or two servers, interleaved with changes of silence lists, user modes, accounts, channel modes, membership and away states",
  "Tests try each filter alone on fixed users; the filters must compose, hold for users on other servers whose silences are only lazily known, and follow every change at once.",
  ["ircd_relay.c", "m_privmsg.c", "m_notice.c", "m_silence.c", "m_wallchops.c", "m_wallvoices.c", "m_cprivmsg.c", "m_cnotice.c", "s_user.c", "channel.c", "send.c"],
  [("private and channel relaying", "ircd/ircd_relay.c"), ("silence matching and lazy propagation", "ircd/s_user.c is_silenced; ircd/m_silence.c"), ("who may speak", "ircd/channel.c client_can_send_to_channel"), ("CPRIVMSG", "ircd/s_user.c whisper")],
  "reference model of silences, user modes, channels and away states; each step's deliveries compared exactly at every client")
P("C26", "Operator powers are had only by operators, and only those granted",
  "A user becomes an operator only by OPER with a name, password and host that match an Operator block (and a place in its class), or by a services server configured to make operators; setting its own modes can only give it up, after which nothing of it is left. The privileges an operator has are those of the Operator block, else of its class, else the defaults, on the servers that know him; a local operator is one on his own server only. KILL, OPMODE, CLEARMODE, SET, RESET, REHASH, GLINE, JUPE, CONNECT, SQUIT, WALLOPS, mass messages, joining past limits, seeing hidden channels and users, being protected from deop and kick on local channels, DIE and RESTART work for those who hold the privilege, locally or globally as it says, and have no effect for anyone else, who is told so.",
  ["histories", "inputs", "fault_sequences"], "all sequences of gaining and losing operator status and of privileged commands, by users, local and global operators with any set of privileges, on one to three servers with splits, rehashes and a services server",
  "Privileges combine block, class and default with local and global status; tests use one operator holding everything.",
  ["m_oper.c", "client.c", "m_kill.c", "m_opmode.c", "m_clearmode.c", "m_set.c", "m_reset.c", "m_rehash.c", "m_connect.c", "m_squit.c", "m_privs.c", "s_user.c", "channel.c", "m_wallops.c", "m_wallusers.c"],
  [("becoming an operator", "ircd/m_oper.c m_oper, do_oper"), ("privilege sets", "ircd/client.c client_set_privs"), ("giving it up", "ircd/s_user.c set_user_mode"), ("service operators", "ircd/m_opmode.c make_oper"), ("privileged commands", "ircd/m_kill.c, m_opmode.c, m_clearmode.c, m_squit.c, m_connect.c")],
  "reference model of operator status and privileges run in step with the servers; effect or refusal of every privileged action compared")
P("C28", "Flooding slows, then cuts off, the flooder and harms nobody else",
  "A client's commands are carried out in the order sent, each exactly once. Beyond a burst of five, an ordinary client has on average one command every two seconds carried out, a long line counting one second more per 120 bytes; what waits is carried out as its turn comes, neither earlier nor later, however it was split or joined on the wire and on plain, TLS and WebSocket connections alike. It is cut off, with the reason Excess Flood, exactly when more bytes wait than its class's limit. Clients of a class whose limit is above the general one (CLIENT_FLOOD) are not slowed; a class without a limit of its own has the general one; limits changed by a rehash apply to everybody. Nobody else waits for an answer or is disconnected. A user may address ten people or channels that are new to it, and one more every 128 seconds; further messages are refused with 439 saying how long to wait, and do not arrive. People who wrote to it and those it recently addressed stay reachable, and reconnecting gives back no more than was left.",
  ["inputs", "schedules", "histories"], "all rates, sizes, segmentations and interleavings of commands of any number of flooding clients of several classes over three transports, with rehashes of the limits; all sequences of messages to strangers, replies, waits and reconnections",
  "Limits are about accumulated time and bytes over a history; tests send a handful of lines and cannot wait.",
  ["s_bsd.c", "packet.c", "parse.c", "dbuf.c", "websocket.c", "class.c", "s_user.c", "IPcheck.c", "ircd_relay.c", "m_join.c"],
  [("throttle and receive queue", "ircd/s_bsd.c read_packet"), ("cost of a command", "ircd/parse.c parse_client"), ("class limits", "ircd/class.c find_max_flood, ircd/s_bsd.c flood exemption"), ("targets", "ircd/s_user.c check_target_limit, add_target"), ("targets kept per address", "ircd/IPcheck.c ip_registry_connect_succeeded, ip_registry_disconnect")],
  "numbered commands at simulated times; time, order and number of the answers, bytes waiting and disconnections compared with the rate rules; deliveries to strangers with a model of free targets")
P("C19", "The spam filter holds what matches, asks, and releases or drops as told",
  "A message whose text matches a pattern in force for its kind (private, channel, part or quit reason) is withheld and one query about it, naming sender, target and what matched, goes to the configured filter service; every other message is untouched and nothing is lost or said twice. On the filter's yes the message is delivered exactly as an ordinary one would be at that moment (silences, +c, +R, channel rights and membership, away notices and echoes included); on its no, nobody sees it; with no answer within the configured time, or if the filter goes away, it is treated as the configuration says. Answers to unknown or settled queries do nothing. A sender who leaves takes the held message with him. Patterns are added, changed, withdrawn and expire by the rule that the newest modification wins, agree on all servers after merges, and STATS shows those in force; with the feature unset or the service absent the filter stays out of the way.",
  ["schedules", "histories", "inputs", "fault_sequences"], "all sequences of messages of every kind against changing pattern sets, filter answers (prompt, late, twice, false, missing), splits and deaths of filter, sender or recipient, on one to three servers",
  "Held messages live across arbitrary later events: each of them may remove or change the sender, recipient, channel or filter; tests release one message on an idle server.",
  ["sline.c", "m_sline.c", "m_xreply.c", "ircd_relay.c", "m_part.c", "m_quit.c", "ircd_netconf.c"],
  [("pattern table and hold queue", "ircd/sline.c"), ("answers", "ircd/m_xreply.c"), ("relaying", "ircd/ircd_relay.c"), ("pattern propagation", "ircd/m_sline.c")],
  "reference model of pattern tables, held messages and the release rule; every step's deliveries, queries and tables compared")
P("C23", "What connections and commands take is given back",
  "Whatever a connection, link, handshake, query, ban, lookup, held message, configuration or setting takes from the server - memory, descriptors, entries the server counts as in use - is given back once it is gone, however it ended: by its user, by an operator, by a network failure, by a timeout, at any stage. Doing the same things again and again needs no more of anything. The server does not spin on what is gone, stays responsive, and starts its authorization helper again when it dies and asks it about the next user.",
  ["histories", "fault_sequences", "schedules"], "all sequences of activities of users (three transports), servers, services, operators, helpers and rehashes on one or two servers, ended at any stage in any way, repeated until steady",
  "A leak shows only when an activity is repeated and everything has had time to expire, and depends on the exact stage at which it was cut short; tests neither repeat nor wait.",
  ["s_bsd.c", "s_misc.c", "list.c", "s_auth.c", "ircd_res.c", "ircd_events.c", "engine_epoll.c", "engine_poll.c", "channel.c", "gline.c", "jupe.c", "whowas.c", "s_conf.c", "class.c", "motd.c", "ircd_netconf.c", "msgq.c", "dbuf.c", "IPcheck.c"],
  [("releasing clients and servers", "ircd/s_misc.c exit_one_client; ircd/list.c"), ("connections", "ircd/s_bsd.c close_connection"), ("handshakes and helper", "ircd/s_auth.c"), ("lookups", "ircd/ircd_res.c"), ("event engines", "ircd/engine_epoll.c, engine_poll.c"), ("configuration objects", "ircd/s_conf.c, class.c")],
  "the same activity repeated; blocks, bytes and descriptors as counted by the simulator's allocator and the server's own in-use counters compared between rounds")
