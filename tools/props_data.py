W = "the upstream socket's byte stream"
C = "each client socket's byte stream"

prop("P01", "The proxy survives any peer input and any I/O failure and keeps serving",
 "Whatever bytes IRC servers, clients, SOCKS peers or the admin socket send, in whatever fragments, and whatever connections, name lookups or reads and writes fail, the proxy process neither terminates, corrupts memory, nor stops responding. After the hostile peer is gone, a well-behaved client can still attach and exchange messages with a well-behaved server.",
 ["inputs", "schedules", "fault_sequences"],
 "every sequence of well-formed, malformed, truncated or out-of-context protocol lines from either side, every fragmentation, every instant at which a connection fails",
 "unit tests feed individual functions a few well-formed lines; none runs the process with hostile peers or failing sockets",
 ["src/main.c", "libirc/transport_ioc.c", "libirc/line.c", "libirc/state.c", "libirc/isupport.c", "libirc/connection.c", "libirc/client.c", "libirc/listener.c", "libirc/redirect.c", "src/network.c", "src/client.c", "src/ctcp.c", "src/admin.c", "src/nickserv.c", "src/log_support.c"],
 [("line parser", "libirc/line.c irc_parse_line"), ("state handlers", "libirc/state.c state_handle_data"), ("transport callbacks", "libirc/transport_ioc.c handle_transport_receive"), ("client command dispatch", "src/client.c process_from_client")],
 ["process exit / memory-error report", C, W])

prop("P02", "Commands from clients reach the server exactly once, in order, unmodified",
 "While the network is connected, every message an attached client sends for the IRC server is transmitted to that server exactly once, byte-for-byte unmodified apart from the line ending, in the order that client sent it, even when the server reads slowly or the text arrives in fragments. A message sent while the network is not connected is never transmitted later, and no message is ever duplicated, merged with another or truncated.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of several clients sending, all fragmentations, all server back-pressure patterns (short writes, full socket buffers) and server losses",
 "tests send single lines over an unconstrained in-memory channel with one client; partial writes, queueing and concurrent clients never happen",
 ["src/client.c", "libirc/client.c", "libirc/connection.c", "libirc/transport_ioc.c", "libirc/line.c", "src/network.c"],
 [("send path with pending queue", "libirc/transport_ioc.c irc_transport_iochannel_send_line / transport_send_queue"), ("client dispatch", "src/client.c process_from_client"), ("upstream forward", "src/network.c network_forward_line")],
 [W, C])

prop("P03", "Server traffic reaches every attached client exactly once and in order",
 "Every channel or private message, notice, join, part, quit, kick, nick change, topic change, mode change, invite and wallops the server sends is delivered exactly once, unmodified and in the server's order, to every client attached to that network, however slowly any client reads. Nothing the server did not send is delivered as if it came from another user.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of server traffic with clients attaching, detaching, stalling and dying, all fragmentations and short writes",
 "tests relay single lines to one client through unconstrained pipes",
 ["src/client.c", "src/network.c", "libirc/client.c", "libirc/connection.c", "libirc/transport_ioc.c", "libirc/redirect.c"],
 [("fan-out", "libirc/client.c clients_send"), ("server dispatch", "src/network.c process_from_server")],
 [C])

prop("P04", "Replies to a client's query are delivered to that client only",
 "When a client issues a query that the server answers with numeric replies (WHOIS, WHOWAS, WHO, LIST, LUSERS, ISON, USERHOST, MOTD, VERSION, STATS, LINKS, ban lists and the like, including error replies), the complete answer is delivered once and in order to the client that asked and to no other client, also while several clients have queries outstanding at the same time or a client that asked has gone. Numerics that answer nobody's query go to all attached clients.",
 ["schedules", "histories"],
 "all interleavings of queries by several clients with the server's answers, client disconnects and server losses between question and answer",
 "tests check the redirect table for single queries; concurrent queries, lost clients and reconnects are never exercised",
 ["libirc/redirect.c", "src/redirect.c", "src/network.c", "src/client.c"],
 [("query stack", "libirc/redirect.c redirect_record / redirect_response")],
 [C], [("query stack", "outstanding queries and who asked", "libirc/redirect.c struct query_stack")])

prop("P05", "One client stalling, dying or detaching never disturbs the session",
 "A client that stops reading, resets its connection, disconnects or sends QUIT causes nothing to be sent to the IRC server on its account (no QUIT, PART or reconnect) and does not delay, drop or reorder the traffic of other clients of any network. The upstream session stays up with no clients at all and a later client finds it intact.",
 ["schedules", "fault_sequences"],
 "every instant at which a client can stall, fail or leave relative to in-flight traffic in either direction",
 "no test has two clients with one of them stalled or failing",
 ["libirc/client.c", "libirc/transport_ioc.c", "src/client.c", "src/network.c"],
 [("per-transport pending queue", "libirc/transport_ioc.c"), ("client removal", "libirc/client.c client_disconnect")],
 [W, C])

prop("P06", "A client that attaches sees the true state of the session",
 "A client that attaches at any time is shown the user's current nick, exactly the channels the user is on, and for each its members with their operator/voice status and its topic as the server has them, after any history of joins, parts, kicks, quits, nick changes, mode changes and topic changes, on networks with any channel types and status prefixes, which clients are told as the network announces them. A client that stays attached sees the same state as one that attaches afterwards.",
 ["histories", "schedules", "fault_sequences"],
 "all histories of channel and user events on the network, including own nick changes, case variants of names, rejoin, kick and reconnect, and every attach instant",
 "tests apply one or two events to a state object; they do not compare against a server over long histories or attach in the middle of traffic",
 ["libirc/state.c", "libirc/client.c", "src/client.c", "src/network.c", "libirc/isupport.c", "src/repl_backends.c"],
 [("state tracking", "libirc/state.c"), ("attach replication", "libirc/client.c client_send_state, client_send_channel_state")],
 [C], [("network_state", "channels, nicks, modes, own nick", "libirc/state.h")])

prop("P07", "What one client says is mirrored to the user's other clients",
 "A channel or private message or notice that one client of a network sends is shown exactly once to every other client attached to the same network, coming from the user's own nick, with unmodified target and text, and is not echoed back to the sender. It is not shown to clients of other networks.",
 ["schedules", "histories"],
 "all interleavings of several clients sending and attaching",
 "tests have one client per network",
 ["src/client.c", "src/network.c", "libirc/client.c"],
 [("mirror", "src/client.c process_from_client -> clients_send")],
 [C])

prop("P08", "Answers the proxy gives from its own cache agree with the server",
 "When the proxy itself answers a client's NAMES, TOPIC, MODE or WHO request for a channel instead of asking the server, the answer states the same members, statuses, topic and channel modes that the server would have stated at that point of the session. When it does not hold the information it forwards the question instead of inventing an answer.",
 ["histories", "schedules"],
 "all histories of channel events and all instants at which a client asks",
 "tests query a freshly populated cache only",
 ["src/cache.c", "libirc/state.c", "libirc/client.c"],
 [("client_try_cache", "src/cache.c")],
 [C, W])

prop("P09", "Login, nick fallback, channel rejoin and startup commands are carried out",
 "On each new server connection the proxy registers with the configured password, nick, username and real name, picks another nick when the server says the nick is taken, answers the server's pings, and after registration runs the configured startup commands and joins, once and with the configured key, each channel marked for automatic join or that the user was on. It sends no client traffic upstream before registration has finished.",
 ["configurations", "schedules", "fault_sequences"],
 "all configurations of servers, nicks, passwords and channels, all registration reply orders, fragmentation and failures during registration",
 "tests only check that the first login lines are emitted",
 ["libirc/connection.c", "src/network.c", "src/settings.c"],
 [("server_send_login", "libirc/connection.c"), ("end-of-MOTD handling", "src/network.c process_from_server")],
 [W])

prop("P10", "A lost or failed server connection is always retried until it succeeds",
 "Whenever the connection to a network is lost or cannot be established (refused, hanging, unresolvable, reset during login, closed), the proxy keeps trying, moving on through the configured servers, until one accepts it, and is logged in again within a bounded time of a reachable server existing. It never runs more than one live connection to a network, and never reconnects a network the user disconnected.",
 ["fault_sequences", "schedules", "configurations"],
 "all sequences of connection failures at every stage and all server lists",
 "needs a clock and failing connections; tests have neither",
 ["libirc/connection.c", "src/network.c"],
 [("reconnect", "libirc/connection.c reconnect / delayed_connect_server"), ("server rotation", "libirc/connection.c network_get_next_tcp_server")],
 [W])

prop("P11", "Dead connections are detected; pings are answered, never leaked",
 "The proxy answers every PING from a server or a client with a PONG carrying the same token, pings a silent server and drops it within a few minutes if it stays silent, never drops a server that keeps answering, and never lets its own keepalive exchange show up at clients.",
 ["schedules", "fault_sequences"],
 "all patterns of silence, traffic and late answers over simulated hours",
 "needs hours of simulated time",
 ["libirc/connection.c", "src/network.c", "src/client.c", "libirc/client.c"],
 [("ping timer", "libirc/connection.c ping_server"), ("client ping", "libirc/client.c client_ping")],
 [W, C])

prop("P12", "Clients survive the loss of the server and are told what changed",
 "When the upstream connection is lost, attached clients stay attached, are shown every other user on their channels leaving as in a netsplit, and get an error instead of silence when they try to send something while the network is not connected. After the reconnect they are shown the rejoined channels and the current nick, so that their view again equals the server's. Nothing from the old session is later presented as current, and nobody is shown leaving who was not there.",
 ["fault_sequences", "schedules", "histories"],
 "every instant of server loss relative to traffic, any number of losses, several clients",
 "no test loses a server with clients attached",
 ["src/network.c", "src/client.c", "libirc/client.c", "libirc/connection.c"],
 [("clients_send_netsplit", "libirc/client.c"), ("clients_send_state", "libirc/client.c")],
 [C])

prop("P13", "Backlog replay shows every missed message exactly once and in order",
 "With backlog replay enabled, an attaching client is shown exactly the messages its replay mode promises (all since the connection began; since the last client detached; since the user last spoke; or those among them matching the highlight words), each exactly once, in original order, with original sender, target and text, and never together with a live duplicate. With replay disabled it is shown none.",
 ["histories", "schedules", "configurations"],
 "all histories of messages, attaches and detaches, for each replay mode",
 "tests replay a handful of lines from a fresh store",
 ["src/repl_backends.c", "src/repl.c", "libirc/linestack.c", "src/client.c", "src/network.c"],
 [("linestack_traverse", "libirc/linestack.c"), ("client_replicate", "src/repl.c")],
 [C], [("linestack", "on-disk log of the session's messages with index and periodic state dumps", "libirc/linestack.c")])

prop("P14", "Failures of the backlog store never corrupt the replay or the session",
 "When writes or reads of the on-disk message store fail, are short, or the disk is full, the proxy keeps the session and the live relay running, and any replay it gives contains only genuine messages of this session in their original order and without repetition; only messages whose storing or reading failed may be missing, and once the store works again nothing said from then on is.",
 ["fault_sequences", "crash_points"],
 "every placement of write, read, seek and open failures among the store's disk operations",
 "tests never make the disk fail",
 ["libirc/linestack.c", "libirc/connection.c", "src/network.c", "src/repl_backends.c"],
 [("linestack_insert_line", "libirc/linestack.c"), ("linestack_read_entry", "libirc/linestack.c")],
 [C])

prop("P15", "No access without the password",
 "On a listener with a password, a peer that has not presented the right one — as an IRC PASS command or through SOCKS username/password — is never shown session data and can make nothing reach a server, however its bytes are split, repeated or ordered; a peer that presents it is admitted to exactly the network it asked for. This remains so after any number of failed attempts and after the configuration is saved and reloaded.",
 ["inputs", "schedules", "histories", "configurations"],
 "all byte sequences and fragmentations on the listening ports, wrong and right credentials, all listener configurations, restarts",
 "tests cover one exchange with whole packets",
 ["src/listener.c", "libirc/listener.c", "src/settings.c"],
 [("PASS handling", "src/listener.c handle_client_line"), ("SOCKS handling", "libirc/listener.c")],
 [C, W])

prop("P16", "Saved configuration survives restarts and crashes",
 "After the configuration has been saved, restarting the proxy restores the networks, servers, nicks, passwords, listeners, channels to join with their keys and settings, any number of save and restart cycles adding and losing nothing. A crash or disk error at any point of saving leaves each file either in its previous or its new state, so that the proxy can always start again with all networks.",
 ["crash_points", "fault_sequences", "configurations", "histories"],
 "all configurations reachable through settings files and administration commands; every disk operation of a save as the crash or failure point",
 "tests write one config once, without failures and mostly without reading back",
 ["src/settings.c", "src/keyfile.c", "src/nickserv.c", "src/main.c", "src/network.c"],
 [("save_configuration", "src/settings.c"), ("load_configuration", "src/settings.c"), ("keyfile", "src/keyfile.c")],
 ["files in the configuration directory", W])

prop("P17", "NickServ passwords are learned, kept and used only where they belong",
 "When learning is enabled, a password the user gives to the nick service (a message IDENTIFY to NickServ, or the NS IDENTIFY command) is remembered for the nick he has on that network, in the place of one remembered before, and survives a restart once saved. After each login, and when the user takes another nick while clients are attached, the proxy tells that network's nick service, once, the password for the nick; one for this network goes before one configured for all networks. Passwords go to the nick service only, and never to another network or for another nick.",
 ["histories", "schedules", "configurations"],
 "all orders of identify, register, nick change, service prompts, reconnects and restarts over several networks",
 "tests call the lookup functions on a hand-built table",
 ["src/nickserv.c", "src/network.c", "src/keyfile.c"],
 [("log_data", "src/nickserv.c"), ("nickserv_identify_me", "src/nickserv.c")],
 [W, "nickserv file"])

prop("P18", "Networks are isolated from one another",
 "With several networks configured, traffic, state, failures and delays of one network never show up on another: each client receives only lines of its own network, each server only what that network's clients and settings call for, and a network that is slow, failing or unreachable does not stop the others from being served.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings of several networks with overlapping channel and nick names, with failures on any subset of them",
 "tests have one network",
 ["src/network.c", "src/settings.c", "libirc/connection.c", "src/client.c", "src/listener.c"],
 [("per-network state", "src/network.c"), ("network selection", "src/listener.c")],
 [C, W])

prop("P19", "CTCP requests are answered exactly once, by the right party",
 "While no client is attached the proxy answers each supported CTCP request from the network once, with a notice to the sender only; while clients are attached it passes the request on to them and answers nothing itself. Every CTCP reply from the network to a request that a client made reaches that client exactly once.",
 ["schedules", "histories"],
 "all interleavings of CTCP requests and replies with clients attaching and detaching",
 "tests call the reply function directly",
 ["src/ctcp.c", "src/ctcp_redirect.c", "src/network.c"],
 [("ctcp_process_request", "src/ctcp.c"), ("ctcp redirect", "src/ctcp_redirect.c")],
 [W, C])

prop("P20", "Automatic away follows client presence and idleness",
 "With auto-away configured, the proxy marks the user away with the configured message and nick only after the configured idle time without anything said by the user, or at once when a client detaches, and in either case only while no more than the allowed number of clients (if one is set) is attached; once per idle period. It marks the user back when the user speaks again or when more clients than the limit attach. A user who set away himself is not overridden, and nothing of this is sent before the login has finished.",
 ["schedules", "configurations"],
 "all timings of client attach, detach and activity over simulated hours, all auto-away settings",
 "needs simulated time; no test exists",
 ["src/auto_away.c"],
 [("auto-away timer", "src/auto_away.c check_time")],
 [W])

prop("P21", "Conversation logs record each message once, in order, in the right file",
 "With logging enabled every channel or private message, notice, action, join, part, quit, kick, topic, mode and nick change seen on a network, including what the user's own clients say, is recorded exactly once, in order, in the file of the conversation and network it belongs to, across any interleaving of networks and channels and after a log reopen signal. A log file that cannot be written does not affect the session.",
 ["histories", "schedules", "fault_sequences"],
 "all histories of traffic over several channels, queries and networks; write and open failures of log files",
 "tests format single lines",
 ["src/log_support.c", "src/log_custom.c", "src/log_subst.c", "src/network.c"],
 [("log_custom_data", "src/log_custom.c"), ("log file cache", "src/log_support.c")],
 ["log files"])

prop("P22", "Administration commands take effect and never leak to the network",
 "An administration command given by a client through any of the supported ways does what it says (add, delete, list, connect, disconnect or switch networks and servers, start or stop listeners, show or change settings), answers only the client or console that gave it, and is never transmitted to an IRC server. Commands that are unknown or have missing or bad arguments get an error answer and change nothing.",
 ["inputs", "histories", "schedules"],
 "all sequences of administration commands with all argument shapes, interleaved with traffic and connection changes",
 "tests run a few commands against a null network",
 ["src/admin.c", "src/client.c", "src/settings.c", "src/network.c"],
 [("process_cmd", "src/admin.c"), ("admin hooks", "src/admin.c")],
 [C, W])

prop("P23", "Shutdown is clean",
 "On a termination signal or the DIE command the proxy tells every server it is connected to goodbye (QUIT) and every client why it is disconnected (ERROR), removes its sockets, saves configuration and learned passwords when autosave is on, and exits without crash, whatever connections are established, half-established or stalled at that moment. A following start comes up with the same networks.",
 ["crash_points", "schedules", "fault_sequences"],
 "termination at every point of the connection life cycle with any mix of clients, stalls and pending reconnects",
 "no test terminates a running proxy",
 ["src/main.c", "src/network.c", "libirc/connection.c", "src/listener.c", "src/settings.c"],
 [("clean_exit", "src/main.c"), ("free_global", "src/settings.c")],
 [W, C, "configuration directory", "exit status"])
