import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="src/"
BASE="The only stable test starts one daemon with one process console, queries it and stops it; "
p("C01","Console output reaches every attached client complete, in order and unaltered",
 "Every byte a console device emits while a client is attached to it in monitor or interactive mode is delivered to that client exactly once, in order and unaltered, for as long as the client keeps reading, whatever the byte values, the chunking, the device type and the number of other clients. A client receives output only of the console it is attached to, never of another console; a broadcast client receives no console output at all. The only other things a session receives are the daemon's own informational messages and replies, each inserted whole.",
 ["inputs","histories"],"all byte streams and chunkings, all interleavings of console output with clients attaching, detaching and toggling modes, device types unix-socket, telnet, process, serial (pty)",
 BASE+"no test ever attaches a client to a console or moves a byte of console output.",
 [S+"server-obj.c",S+"server.c",S+"server-sock.c"],
 [("read from device, copy to each reader's circular buffer",S+"server-obj.c:read_from_obj"),("circular buffer insert",S+"server-obj.c:write_obj_data"),("drain with writev",S+"server-obj.c:write_to_obj"),("poll loop",S+"server.c:mux_io")],
 ["client TCP socket","console device endpoint"])
p("C02","Client input reaches exactly the consoles it may write, complete and in order",
 "Every byte an interactive or broadcast client sends is delivered to each connected console it has write access to exactly once and in order, including any byte value, with protocol escape pairs removed (an escaped escape byte arriving as one literal byte) wherever the segment boundaries fall. Input of a monitoring client, or of a client whose write access has ended, reaches no console. With several joined writers, each writer's bytes arrive complete and in that writer's order.",
 ["inputs","histories"],"all input byte streams and segmentations, all sets of consoles, all mixes of interactive, broadcast and monitoring clients",
 BASE+"no test sends a single byte to a console.",
 [S+"server-esc.c",S+"server-obj.c",S+"server-sock.c"],
 [("unstuff escapes statefully across reads",S+"server-esc.c:process_client_escapes"),("fan-out to consoles",S+"server-obj.c:read_from_obj"),("broadcast linking",S+"server-sock.c:perform_connect_cmd")],
 ["console device endpoint"])
p("C03","Write access to a console is exclusive unless explicitly joined or forced",
 "A plain connect to a console that already has a writer is refused as busy, naming each holder, and changes nothing; a join adds a writer without disturbing the others; a force removes every earlier writer of the requested consoles from all its consoles, ends its connection once its pending output is delivered, and leaves the new client as writer. A client may turn an interactive session into a monitoring one and back (by join or force) with the same effects, and its write access ends with its connection, after which the console can be connected to again. A monitor request is never refused because of writers and never affects them.",
 ["histories"],"all histories of connect, monitor, broadcast, join, force, mode changes and disconnects by any number of clients over any number of consoles",
 BASE+"the arbitration rules are exercised by no test; they quantify over histories of several clients.",
 [S+"server-sock.c",S+"server-obj.c",S+"server-esc.c"],
 [("busy check",S+"server-sock.c:check_busy_consoles"),("link/unlink, stealing",S+"server-obj.c:link_objs,unlink_objs"),("mode toggles",S+"server-esc.c:perform_console_writer_linkage")],
 ["server replies and session bytes on client sockets","bytes reaching consoles"])
p("C04","A slow or suspended client stalls nobody and loses only its own oldest output",
 "A client (or console) that stops reading, or that suspends its output, never delays or alters what other clients, consoles and logs receive. While it does not read, the most recent output (at least 16,000 bytes of it) is retained for it; when it resumes it receives what was already on the wire followed by the retained output, in order, where the only permitted loss is one contiguous gap of the oldest unretained bytes per overflow. A suspended client receives nothing until it resumes, and if it goes away while suspended its session and write access end.",
 ["histories","schedules"],"all amounts and chunkings of output before, during and after a suspension or stall, including amounts around multiples of the buffer size",
 BASE+"no test suspends a client, stops reading, or produces enough output to wrap a buffer.",
 [S+"server-obj.c",S+"server-esc.c"],
 [("overwrite-oldest circular buffer",S+"server-obj.c:write_obj_data"),("suspend flag gates POLLOUT",S+"server-esc.c:perform_suspend"),("non-blocking descriptors",S+"server-obj.c:create_client_obj")],
 ["client TCP socket","other clients' sockets"])
p("C05","The console log records every byte of console output whatever clients do",
 "With logging enabled and no log processing options, the log file of a console is exactly the concatenation of everything the console device emitted and of whole informational messages about that console, in order, with nothing lost, duplicated, or taken from another console or from client input. Attaching, detaching, suspended, stalled, quiet, replaying or broadcasting clients do not change the recorded console output. Restarting the daemon appends to the existing log, and only the truncate option empties it, at start-up.",
 ["inputs","histories"],"all console output streams and all client activity, over daemon restarts with and without the truncate option",
 BASE+"it checks that a log file exists and is non-empty, not what it contains.",
 [S+"server-logfile.c",S+"server-obj.c"],
 [("log writing",S+"server-logfile.c:write_log_data"),("open for append / truncate once",S+"server-logfile.c:open_logfile_obj"),("link console to log",S+"server-conf.c:process_console")],
 ["console log file"])
p("C06","Sanitized and timestamped logs are a fixed function of the console byte stream",
 "With the sanitize or timestamp log option, the recorded text is the documented line-oriented rendering of the console's byte stream: line breaks normalised to CR LF, (with sanitize) control and eight-bit bytes shown in printable form, and (with timestamp) each line that has content or a break prefixed once by the date and time at which it began. The result depends only on the bytes and times, not on how the bytes were split into reads, and printable text is never lost, altered or reordered. Sanitized logs contain only printable ASCII, CR and LF.",
 ["inputs"],"all byte streams, all ways of splitting them into reads, all combinations of the two options, all informational messages interleaved",
 BASE+"no test uses either option or produces CR, LF, NUL, control or eight-bit bytes.",
 [S+"server-logfile.c"],
 [("line state machine",S+"server-logfile.c:write_sanitized_log_data / write_log_data"),("state carried between reads",S+"server.h:log_line_state_t"),("state reset by informational messages",S+"server-obj.c:write_obj_data")],
 ["console log file"])
p("C07","Log replay shows exactly the most recent logged bytes of that console",
 "When an attached client asks for a replay it receives, between the begin and end markers naming its console, exactly the last bytes of what has been logged for that console since the daemon started: all of it if less than 4 KiB has been logged, otherwise the final 4 KiB. Without a log it receives only a notice that the console is not being logged, and a broadcast session receives nothing. A replay does not alter the log, the live output or any other session.",
 ["histories"],"all log contents and lengths (including around the replay limit and the wrap of the log's buffer), all log options, all moments of the request",
 BASE+"no test ever requests a replay.",
 [S+"server-esc.c",S+"server-logfile.c"],
 [("copy back from the log's circular buffer",S+"server-esc.c:perform_log_replay"),("wrap flag",S+"server-obj.c:write_obj_data")],
 ["client TCP socket","console log file"])
p("C08","Rotating logs on SIGHUP loses, duplicates and misplaces nothing",
 "On SIGHUP the daemon's own log and every console log are reopened, with date and other specifiers in their names re-evaluated; the old files together with the new files, in order, hold every byte of console output exactly once. A log that had failed to open is retried; reopening never truncates an existing file, even if truncation was requested at start-up. Sessions and console connections are unaffected.",
 ["histories"],"all interleavings of console output, renames or removals of the log files, clock changes and SIGHUPs",
 BASE+"no test sends SIGHUP.",
 [S+"server.c",S+"server-logfile.c"],
 [("reopen_logfiles",S+"server.c:reopen_logfiles,open_daemon_logfile"),("reopen a console log",S+"server-logfile.c:open_logfile_obj")],
 ["log files before and after rotation"])
p("C09","Console patterns select exactly the consoles they denote",
 "A query, monitor or connect request selects exactly the configured consoles whose whole name matches at least one of the given patterns, as shell globs or, on request, as case-insensitive extended regular expressions, each console at most once and listed in name order with trailing numbers compared numerically. A query without patterns selects every console; a request selecting none, several without broadcast, or using an invalid expression is refused with the matching error (listing the candidates when there are too many). Names containing quotes or other special characters survive the protocol unchanged.",
 ["inputs","configurations"],"all sets of console names, all pattern lists, all request types and options",
 BASE+"it queries one console by a fixed name.",
 [S+"server-sock.c",S+"server-obj.c",S+"lex.c"],
 [("glob matching",S+"server-sock.c:query_consoles_via_globbing"),("regex matching",S+"server-sock.c:query_consoles_via_regex"),("ordering",S+"server-obj.c:compare_objs"),("string encoding",S+"lex.c:lex_encode")],
 ["server reply to QUERY/MONITOR/CONNECT"])
p("C10","No bytes from a client can crash, wedge or corrupt the daemon",
 "Whatever bytes a client sends before or after its session is established, in whatever fragments, and whenever it disconnects, the daemon keeps running with no memory error, keeps serving all other clients, consoles and logs unchanged, and frees the departed client's resources. Each greeting or request line that ends in a newline gets exactly one OK or ERROR reply line of well-formed protocol syntax with the right error class, or the connection is closed. Running out of file descriptors refuses new connections without terminating the daemon.",
 ["inputs","histories","fault_sequences"],"all client byte streams, fragmentations and disconnect points, including stolen, suspended and broadcast sessions, and descriptor exhaustion",
 BASE+"it only uses the bundled client, with well-formed requests.",
 [S+"server-sock.c",S+"server-esc.c",S+"lex.c",S+"server.c"],
 [("request parsing",S+"server-sock.c:recv_greeting,recv_req,parse_cmd_opts"),("escape handling",S+"server-esc.c:process_client_escapes"),("accept",S+"server.c:accept_client")],
 ["daemon process status under sanitizers","probe client and console"])
p("C11","Telnet consoles: no protocol byte leaks, no data is lost, no negotiation loops",
 "From a telnet console's byte stream the daemon extracts exactly the data bytes: commands, option negotiations and subnegotiations are removed and a doubled 0xFF becomes one, independent of segmentation and unaffected by an earlier connection that was cut in mid-sequence. It answers a request to enable an option it does not support exactly once with a refusal, never answers a refusal, and so never loops; its initial offers are sent once per connection and a break request is sent as a telnet break. Data sent to the console arrives at a telnet peer as the same data, 0xFF included.",
 ["inputs","schedules"],"all peer byte streams (including truncated, nested and malformed sequences), all segmentations, all reconnects",
 BASE+"no test has a telnet console.",
 [S+"server-telnet.c",S+"server-obj.c"],
 [("filter",S+"server-telnet.c:process_telnet_escapes"),("option replies",S+"server-telnet.c:process_telnet_cmd"),("initial negotiation",S+"server-telnet.c:connect_telnet_obj")],
 ["telnet peer socket","console log and client sockets"])
p("C12","A lost console connection is always retried, with bounded backoff",
 "Whenever a telnet, unix-socket or process console is down, a reconnect attempt follows after its current delay, which starts at the type's minimum and doubles with each attempt up to the type's maximum (15 s to 30 min for telnet, 1 s to 1 min for unix sockets, 1 min to 30 min for processes), and which falls back (to no more than the minimum) only after a connection has stayed up for the type's minimum time. A telnet host whose name cannot be resolved is reported and looked up again after the maximum delay. A client attaching to a down console is told so and triggers an immediate attempt, and a unix socket that appears in the file system is connected at once. Attached clients and the log are told of each loss and each re-establishment exactly once, and sessions persist across them.",
 ["histories","fault_sequences","schedules"],"all sequences of device failures, refusals, recoveries, client attachments and elapsed times",
 BASE+"no test drops a console connection, and delays of minutes cannot be waited for.",
 [S+"server-telnet.c",S+"server-unixsock.c",S+"server-process.c",S+"inevent.c",S+"server-sock.c"],
 [("backoff timers",S+"server-telnet.c:connect_telnet_obj, server-unixsock.c:connect_unixsock_obj, server-process.c:disconnect_process_obj/connect"),("immediate retry",S+"server-sock.c:check_console_state"),("inotify trigger",S+"inevent.c:inevent_process")],
 ["virtual clock and accept times at the device endpoint","client sockets","logs"],"none: the clock is substituted at link time in the harness build")
p("C13","Any configuration text is parsed safely; a bad directive spoils only itself",
 "Reading any configuration file, however malformed, never crashes, hangs or corrupts the daemon. Every rejected setting is reported with the file name and the line number where it stands, and it and what follows it on its line have no effect; every well-formed directive before and after it takes effect exactly as if the rejected part were absent. A console whose log cannot be named or opened is still served, without a log. Comments, blank lines, quoting, escapes and line continuations are honoured as documented, and a daemon without any valid console refuses to start.",
 ["inputs","configurations"],"all byte strings as configuration files, and all mixes of valid and invalid directives",
 BASE+"it uses one small generated valid configuration.",
 [S+"server-conf.c",S+"lex.c"],
 [("directive parsing",S+"server-conf.c:parse_console_directive,parse_global_directive,parse_server_directive"),("error reporting",S+"server-conf.c:parse_*"),("tokens",S+"lex.c:lex_next")],
 ["diagnostics on standard error","set of consoles served and their settings"])
p("C14","Settings resolve by the documented precedence",
 "A console's log file, log options, serial options and test options are its own where given, otherwise those of the most recent preceding global directive, otherwise the built-in defaults; an empty log name disables logging for that console only. Command-line port and pid-file options override the configuration file regardless of order; the last of repeated server directives wins; relative log names resolve under the configured log directory, or the start directory if none. The daemon listens on the configured port, and only on loopback when told so.",
 ["configurations"],"all sequences of server, global and console directives with overriding, empty and repeated settings, and all command-line overrides",
 BASE+"it uses one fixed configuration without global directives.",
 [S+"server-conf.c",S+"server-logfile.c",S+"server.c"],
 [("global options",S+"server-conf.c:parse_global_directive"),("per-console resolution",S+"server-conf.c:process_console"),("command line",S+"server-conf.c:process_cmdline")],
 ["log files created","listening address","device settings"])
p("C15","No two consoles share a name, a local device or a log file",
 "Of several console directives with the same console name, the same serial line or the same unix socket, exactly the first valid one is served and every later one is reported as a duplicate. A log file name resolved for two consoles is used by the first only; the second console is served without a log and the conflict is reported. Logs of two consoles never interleave in one file, and a log file locked by another process is not written to when locking is enabled.",
 ["configurations"],"all orderings of console directives that collide in name, device or expanded log name, including through specifiers and sanitisation",
 BASE+"it configures one console.",
 [S+"server-conf.c",S+"server-logfile.c",S+"server-serial.c",S+"server-unixsock.c",S+"server-telnet.c",S+"server-process.c"],
 [("duplicate checks",S+"server-*.c:create_*_obj"),("log lock",S+"server-logfile.c:open_logfile_obj")],
 ["diagnostics","query results","log files"])
p("C16","Name specifiers expand as documented and can never escape the log directory",
 "Conversion specifiers in log-file names and reset commands expand as documented (console name, device, daemon pid, date and time fields, literal percent), unknown ones are kept literally, and the result is either complete or rejected as too long, never truncated and never read or written out of bounds. Text substituted from a console name or device contains no slash, blank or control character and so never adds a path component: a log file always lies in the directory the format's own literal text names. Intermediate directories are created as needed.",
 ["inputs","configurations"],"all format strings, console names, devices, buffer sizes and times",
 BASE+"it uses one log name without specifiers.",
 [S+"server-obj.c",S+"server-logfile.c",S+"server.c",S+"util-file.c"],
 [("expansion",S+"server-obj.c:format_obj_string"),("sanitising",S+"server-obj.c:sanitize_file_string")],
 ["log file paths","reset command text"])
p("C17","One daemon per configuration; -q, -k and -r act on exactly that daemon",
 "A second daemon started on a configuration file in use refuses to start and leaves the first one alone; -q, -k and -r report, terminate and rotate exactly the daemon of the given configuration, with exit status 0 if one was signalled and 1 otherwise. The pid file holds the running daemon's pid while it runs and is gone after it terminates. On SIGTERM or SIGINT the daemon always exits with success, closing every client connection, after logging its stop message.",
 ["histories","configurations"],"all sequences of starts, queries, signals and stops over several configuration files, with and without pid files, in foreground and background",
 BASE+"it starts and stops one daemon once.",
 [S+"server-conf.c",S+"server.c",S+"util-file.c"],
 [("configuration lock",S+"server-conf.c:process_config,signal_daemon"),("pid file",S+"server-conf.c:write_pidfile"),("termination",S+"server.c:exit_handler,main")],
 ["exit statuses","pid file","process table"])
p("C18","Reset and break act once on exactly the consoles the client may write",
 "A reset request runs the configured reset command once for each console the requesting client has write access to, with that console's name substituted, and tells all its attached clients who did it; a monitoring client, or a daemon without a reset command, runs nothing. A command still running after 60 seconds is killed with its whole process group; while it is running another reset of that console is refused, and once it has finished a reset is accepted again. A break request reaches each writable console in its type's form, and no other console.",
 ["histories","schedules"],"all sequences of reset and break requests from clients in all modes, with commands that end early, late or spawn children, over virtual time",
 BASE+"no test configures a reset command or sends a break, and the time limit cannot be waited for.",
 [S+"server-esc.c",S+"server-obj.c"],
 [("reset",S+"server-esc.c:perform_reset,kill_reset_cmd"),("break",S+"server-esc.c:perform_serial_break")],
 ["effects of the reset command in a scratch directory","device endpoints"])
p("C19","Informational messages are truthful, complete and suppressible",
 "Whenever a client gains or loses write access to a console by connecting, joining, forcing, switching mode or disconnecting, every other client attached to that console and its log receive exactly one message naming the console and the client, and the newcomer receives one message per writer it joined or displaced. A client in quiet mode receives no informational message but all console output, replays and mode confirmations; toggling quiet mode affects only that client. Messages are never interleaved into the middle of one another and carry the requester's own user and terminal names.",
 ["histories"],"all histories of clients attaching, joining, forcing, switching, toggling quiet and leaving",
 BASE+"no test looks at an informational message.",
 [S+"server-obj.c",S+"server-esc.c",S+"server-sock.c"],
 [("notify",S+"server-obj.c:notify_console_objs,link_objs,unlink_objs"),("quiet filter",S+"server-obj.c:write_obj_data"),("toggle",S+"server-esc.c:perform_quiet_toggle")],
 ["client sockets","console log"])
p("C20","Serial lines get exactly the configured settings, raw and transparent",
 "A serial console's line is set to the configured speed, data bits, parity and stop bits (own, global or default 9600,8n1), in raw mode with local modem control, so that all byte values pass both ways unaltered. Its previous terminal settings are restored when the daemon exits. A serial option string is accepted exactly when it is documented syntax with supported values, unsupported speeds being rejected or adjusted as documented.",
 ["inputs","configurations"],"all option strings, all prior terminal settings, all byte streams",
 BASE+"no test has a serial console.",
 [S+"server-serial.c",S+"common.c"],
 [("option parsing",S+"server-serial.c:parse_serial_opts"),("line setup",S+"server-serial.c:set_serial_opts,open_serial_obj"),("raw mode",S+"util-file.c / common.c:get_tty_raw")],
 ["terminal attributes of a pseudo-terminal"])
p("C21","The client program relays the session faithfully and acts on escapes only",
 "In an interactive session the client program sends every typed byte to the server exactly once and unaltered except that a recognised escape sequence performs its documented function and an escaped escape character sends one; console output appears on the terminal, and in the session log if requested, byte for byte. A monitoring client sends no typed data and a broadcast client shows no console output. On every way out (quit escape, server closing, end of input, termination signal) the terminal settings are restored and the exit status is as documented.",
 ["inputs","histories"],"all keystroke and output streams and segmentations, all escape characters, all ways a session ends",
 BASE+"no test opens an interactive client session.",
 [S+"client-tty.c",S+"client-sock.c",S+"client.c"],
 [("escape processing",S+"client-tty.c:process_escapes/read_from_stdin"),("output and log",S+"client-tty.c:read_from_socket"),("terminal restore",S+"client-tty.c:connect_console")],
 ["pseudo-terminal of the client","scripted server socket","session log"])
p("C22","The client program requests exactly what its command line says",
 "The client program turns its arguments, its names file (one name or pattern per line, with blank lines, comments and surrounding blanks ignored) and its environment into exactly one well-formed request with the corresponding command, options and console patterns, connecting to the host and port selected by option, environment or default. A query prints the server's list one name per line and exits 0; any refusal or failure prints the server's message and exits non-zero. No server response, however malformed, crashes or hangs it.",
 ["inputs"],"all argument lists, names files, environment settings and server responses",
 BASE+"it runs one query with one name.",
 [S+"client-conf.c",S+"client-sock.c",S+"client.c"],
 [("options",S+"client-conf.c:process_client_cmd_line"),("names file",S+"client-conf.c:read_consoles_from_file"),("protocol",S+"client-sock.c:send_greeting,send_req,recv_rsp,display_consoles")],
 ["scripted server socket","standard output, standard error, exit status"])
p("C23","The daemon's log is line-oriented, levelled and bounded",
 "Every message logged at or above the configured priority appears in the daemon's log exactly once, as one line with its timestamp and level tag if enabled, in order, and none below that priority appears. A message of any length is bounded and still ends in exactly one newline; formatting never overruns memory. If a syslog facility is configured, a background daemon sends every message, of whatever priority, there exactly once too. Fatal errors also reach the process that started the daemon, which then exits non-zero.",
 ["inputs"],"all messages (lengths around the internal bound, percent signs, trailing newlines, error texts) and all priority settings",
 BASE+"it greps the log for one message.",
 [S+"log.c",S+"server.c",S+"server-conf.c"],
 [("formatting and filtering",S+"log.c:log_aux,log_msg,log_err"),("daemon error pipe",S+"log.c:log_set_err_pipe; server.c:begin_daemonize")],
 ["log stream contents","exit status of the starting process"])
p("C24","Periodic timestamps are written on schedule to every console log",
 "With a timestamp interval configured, every console log receives one timestamp message at each multiple of the interval counted from midnight of the start day, and none at any other time, for as long as the daemon runs. The interval is the configured number in the configured unit (minutes by default, hours or days). The messages are inserted whole, once each, and do not disturb the console data around them.",
 ["configurations","schedules"],"all intervals and units, all start times, all advances of the clock",
 BASE+"no test configures timestamps, and intervals of minutes to days cannot be waited for.",
 [S+"server.c",S+"server-conf.c",S+"tpoll.c"],
 [("scheduling",S+"server.c:schedule_timestamp,timestamp_logfiles"),("parsing",S+"server-conf.c:parse_server_directive")],
 ["console log under a virtual clock"],"none: the clock is substituted at link time in the harness build")
p("C25","Process consoles run exactly the configured command in a clean environment",
 "A process console executes the configured program, located by path or along the configured search path, with exactly the configured arguments after specifier expansion, its standard input, output and error connected to the console, none of the daemon's other descriptors, and a sanitised environment. When its connection is dropped the program is killed, a background daemon that exits terminates its programs (by SIGTERM), and no zombie is left behind. Its exit is noticed and announced, and it is restarted under the retry rules.",
 ["configurations","histories"],"all argument vectors, environments, search paths and exit behaviours of the program",
 BASE+"it runs one process console without looking at its environment.",
 [S+"server-process.c",S+"server.c",S+"server-conf.c",S+"util-file.c"],
 [("launch",S+"server-process.c:connect_process_obj,open_process_obj"),("search",S+"server-process.c:is_process_dev,search_exec_path"),("environment",S+"server.c:get_sane_env")],
 ["report written by the child process","process table"])
p("C26","Device option strings are all-or-nothing and mean what is documented",
 "An option string for serial, test, log or IPMI consoles is either accepted, changing exactly the documented settings to exactly the given values, or rejected with a message and no change at all to the settings. Values outside the documented range or length, unknown keys and trailing garbage are rejected (unknown log options are ignored with a warning). Acceptance depends only on the string and the previous settings, not on unrelated earlier failures, and no string causes a memory error.",
 ["inputs"],"all option strings over all option grammars, all prior settings",
 BASE+"no test uses device options.",
 [S+"server-serial.c",S+"server-test.c",S+"server-logfile.c",S+"server-ipmi.c"],
 [("parsers",S+"server-serial.c:parse_serial_opts; server-test.c:parse_test_opts; server-logfile.c:parse_logfile_opts; server-ipmi.c:parse_ipmi_opts")],
 ["resulting settings and error text"])
p("C27","Tokenising is total, bounded and faithful; encoding strings round-trips",
 "Splitting any text into tokens terminates, stays in bounds, classifies keywords case-insensitively, integers, strings and punctuation as documented, reports the right line number for each token, and yields the original text of each token (strings truncated only at the documented maximum). Quoted strings keep their content verbatim and an unterminated one is reported as an error. Encoding a string for transmission and decoding it restores every seven-bit string, and the encoded form never contains a quote that would end it early.",
 ["inputs"],"all NUL-free byte strings as input and all keyword tables",
 BASE+"the tokeniser has no unit test.",
 [S+"lex.c"],
 [("tokeniser",S+"lex.c:lex_next"),("encoding",S+"lex.c:lex_encode,lex_decode")],
 ["token stream"])
p("C28","Lists behave as sequences, also under mutation during iteration and many threads",
 "A list behaves as the ideal sequence under any sequence of append, prepend, push, pop, enqueue, dequeue, find, delete, sort and iterator operations: sorting yields an ordered permutation, the destructor runs exactly once on each item a destroying operation removes, and counts agree. An iterator visits every item present throughout exactly once, in order, even if items are inserted, removed or deleted during the iteration by it or by another iterator. Concurrent operations from several threads are atomic.",
 ["histories","schedules"],"all operation sequences with any number of live iterators, and concurrent histories",
 BASE+"the list module has no unit test.",
 [S+"list.c"],
 [("list and iterators",S+"list.c:list_node_create,list_node_destroy,list_next,list_insert"),("mutex",S+"list.c:list_mutex_lock")],
 ["return values of the list operations"])
p("C29","Timers fire once, in order, never early; descriptor readiness is exact",
 "Each timer fires exactly once, not before its time, in order of expiry (creation order for equal times), unless cancelled first, in which case it never fires; timers may be set and cancelled from within timer callbacks and from other threads. Waiting returns no later than the given timeout, the next timer or the first ready descriptor. The event set registered for each descriptor is exactly the accumulated effect of the set, clear and reset operations, and only requested (or error) conditions of registered descriptors are reported.",
 ["histories","schedules"],"all sequences of timer and descriptor operations over virtual time, including any number of timers and large descriptor numbers",
 BASE+"the multiplexor has no unit test.",
 [S+"tpoll.c"],
 [("timer list",S+"tpoll.c:tpoll_timeout_absolute,do_timers_expire"),("descriptor table",S+"tpoll.c:tpoll_set,tpoll_clear,tpoll_grow"),("wait",S+"tpoll.c:tpoll")],
 ["callback order and times","return values"])
p("C30","String and file helpers are exact, bounded and interruption-safe",
 "Bounded string formatting and appending never write beyond the given size, always terminate the string and report truncation; path, time-delta and number helpers compute what they document for all inputs. Reading or writing a given number of bytes or a line returns exactly the available data across partial transfers and interruptions, never consuming bytes beyond the line. Creating directories makes every missing component and succeeds when they already exist; lock helpers report exactly whether another process holds a conflicting lock.",
 ["inputs","fault_sequences"],"all strings, sizes and paths, all partial-transfer and interruption patterns",
 BASE+"the helpers have no unit test.",
 [S+"util-str.c",S+"util-file.c",S+"util-net.c",S+"util.c"],
 [("strings",S+"util-str.c"),("files",S+"util-file.c:read_n,write_n,read_line,get_dir_name,create_dirs,get_write_lock")],
 ["return values, buffers and file system effects"])
p("C31","Test consoles emit the cyclic printable sequence at the configured rate",
 "A test console emits an unbroken cyclic sequence of printable ASCII characters, in bursts of the configured size separated by delays within the configured minimum and maximum and occurring with the configured probability, and discards what clients send it. Across bursts and reads the sequence continues exactly where it stopped, for every reader and the log alike. Other consoles are unaffected.",
 ["configurations","schedules"],"all burst sizes, delays and probabilities over virtual time",
 BASE+"no test configures a test console.",
 [S+"server-test.c"],
 [("generator",S+"server-test.c:read_test_obj,open_test_obj")],
 ["client socket and log under a virtual clock"],"none: the clock is substituted at link time in the harness build")
p("C32","Concurrent requests are admitted as if one after another",
 "Simultaneous connect requests for the same console behave as if they had arrived in some order: without force or join at most one of them obtains write access and the others are refused as busy. No overlap of requests with console output, mode changes or disconnects crashes the daemon, loses a session or leaves a console with two exclusive writers.",
 ["schedules"],"all interleavings of request-handling threads with each other and with the main loop",
 BASE+"it never has two clients at once.",
 [S+"server-sock.c",S+"server-obj.c",S+"server.c"],
 [("busy check and linking",S+"server-sock.c:check_busy_consoles,perform_connect_cmd; server-obj.c:link_objs"),("client threads",S+"server.c:accept_client")],
 ["server replies and session bytes on client sockets"],"none: thread scheduling is perturbed at link time in the harness build")
p("C33","TCP-Wrappers access rules admit or refuse each connection before anything else",
 "When TCP-Wrappers support is enabled in the configuration, every connection to the daemon is put exactly once to the access rules, under the daemon name conmand and with the client's address and its resolved name (or unknown), before anything the client sends is acted upon. A client the rules refuse is sent nothing and disconnected, its refusal is logged with its name and port, and no console, session or log is affected; a client they admit is served as usual. Rules changing later affect only later connections. When the support is disabled or not configured the rules are never consulted.",
 ["configurations","histories"],"all configurations of the keyword, all client addresses and names, all access rules and histories of connections",
 BASE+"it runs without TCP-Wrappers and with one client address.",
 [S+"server-sock.c",S+"server-conf.c",S+"server.c"],
 [("rules",S+"server-sock.c:process_client,resolve_addr"),("configuration",S+"server-conf.c:process_server_directive")],
 ["client sockets","the arguments of hosts_ctl()","daemon log","console bytes"],"none: hosts_ctl() and the name lookups are substituted at link time in the harness build")
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
