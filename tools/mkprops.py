import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
SP="sudo_pair/src/"; PL="sudo_plugin/src/"
NOT="The repository has no test at all for sudo_pair's plugin object; only the template expander and option parsing have unit tests. "

p("C01","Only documented exemptions skip pairing",
"A sudo session starts without a pair's approval if and only if one of these holds: the invoking user is the user sudo itself runs as; neither effective uid nor effective gid changes; the command is the configured approval binary; none of tty output, stdout and stderr is logged; one of the user's groups is in gids_exempted; or none of the groups the command will run with (its group vector, or the user's own when preserved, plus its effective gid) is in gids_enforced. In every other case no command starts until a pair approves, whatever the command name, arguments, environment or other settings are. An exempt session creates no socket, prompts nobody, and none of its callbacks is ever refused.",
["inputs","configurations"],"over every combination of user identity, target identity, group vectors, logging hints, command and plugin options sudo can pass",
NOT+"The rule is a disjunction over ten independent inputs; samples cannot cover its boundary.",
[SP+"lib.rs",PL+"plugin/io_env.rs",PL+"options/command_info.rs"],
[("is_exempt and its six predicates",SP+"lib.rs"),("runas_gids",PL+"plugin/io_env.rs"),("-V short circuit in core::open",PL+"core.rs")],
["return value of the plugin's open callback","whether a socket appears in the socket directory","return values of the log callbacks"])

p("C02","A session opens only on the pair's explicit y",
"When pairing is required, the session is allowed only after the full pair prompt was sent to the connected pair and the first byte that pair sent back is 'y' or 'Y'. Every other first byte, an end of stream, a connection error, or a failure of any step that creates, secures, waits on or uses the socket refuses the session. However long the pair takes to connect or to answer, the plugin keeps waiting, and a y to a completely sent prompt opens the session unless a step failed or the pair left.",
["inputs","fault_sequences","schedules"],"over every answer byte and byte sequence, every moment the pair can hang up, any delay of the pair, and every system call of the exchange failing",
NOT+"It needs a live peer, all 256 answers and injected system-call failures.",
[SP+"lib.rs",SP+"socket.rs",SP+"errors.rs"],
[("remote_pair_prompt: default answer 'n', match on y|Y",SP+"lib.rs"),("Socket::open error propagation",SP+"socket.rs"),("Error -> OpenStatus::Deny",SP+"errors.rs")],
["return value of open","bytes seen by the pair"])

p("C03","Only someone who can act as the target can reach the socket",
"From the moment the approval socket exists until it disappears, the only non-root identities the filesystem lets connect are: the target user when the session changes the user, or members of the target group when it only adds an explicitly requested group; and those identities can connect while sudo waits for the pair. In particular the requesting user can never approve their own session without being able to act as the target. A request that changes the user and also explicitly names a group is refused before any socket exists.",
["inputs","schedules"],"over every (user, target user, target group, explicit -g) combination and every instant between creation and removal of the socket",
NOT+"Ownership and mode must be right at every instant, for every identity, as seen by the kernel.",
[SP+"lib.rs",SP+"socket.rs"],
[("socket_uid / socket_gid / socket_mode",SP+"lib.rs"),("umask 0777 then chown then chmod",SP+"socket.rs"),("is_sudoing_to_user_and_group",SP+"lib.rs")],
["owner, group and mode of the socket at every system call","connect(2) attempts by chosen identities"])

p("C04","Insecure socket directories and foreign files are refused",
"If the socket directory is missing, is not a directory, is not owned by the user sudo runs as, or is writable by its group or by others, a session that needs a pair is refused without creating anything. A file of any kind other than a socket already at the session's socket path is left untouched and the session refused; a leftover socket there is replaced. The socket path is always <socket_dir>/<uid>.<pid>.sock for the invoking user's real uid and sudo's pid.",
["inputs","configurations"],"over every owner and permission mode of the directory, kind of file at the path, uid and pid",
NOT+"The answer depends on all 4096 modes, owners and file kinds.",
[SP+"socket.rs",SP+"lib.rs"],
[("enforce_ownership",SP+"socket.rs"),("Socket::unlink",SP+"socket.rs"),("socket_path",SP+"lib.rs")],
["return value of open","contents of the socket directory before and after"])

p("C05","Opening a session leaves no trace in the process or directory",
"Whatever the outcome of opening a session (approval, refusal, hang-up, Ctrl-C, a failing system call other than the clean-up itself, or any file descriptor numbers), afterwards the session's socket file is gone, and the file mode creation mask, the SIGINT disposition and the signal mask are what they were before. After a refusal, or once the session is closed, no file descriptor is left open; and no descriptor the plugin holds is inherited by the command.",
["fault_sequences","schedules","inputs"],"over every failing system call, answer, signal moment and number of already open descriptors",
NOT+"Needs every exit path, including injected faults.",
[SP+"socket.rs",SP+"lib.rs"],
[("unlink and umask restore after the wait",SP+"socket.rs"),("ctrl_c_aborts_syscalls restores the handler",SP+"socket.rs"),("Drop for Socket",SP+"socket.rs")],
["socket directory listing","umask, sigaction, signal mask and descriptor table of the sudo process"])

p("C06","Ctrl-C while waiting for the pair aborts the session",
"If SIGINT reaches sudo while it waits for a pair to connect or for the pair's answer, the wait ends and the session is refused, even when a willing pair shows up right afterwards and sudo's own SIGINT handler asks for system calls to be restarted. The handler is still called exactly once and stays installed.",
["schedules"],"over both waits, the moment the signal arrives, and the handler's flags and mask",
NOT+"It is a race between a signal and a blocking call, which no test drives.",
[SP+"socket.rs",SP+"lib.rs"],
[("select instead of accept",SP+"socket.rs"),("ctrl_c_aborts_syscalls",SP+"socket.rs"),("read instead of read_exact",SP+"lib.rs")],
["return value of open after a signal delivered inside the wait"])

p("C07","The pair sees every byte of output, in order, exactly once",
"In a paired session, after the prompt and the echoed answer, the pair receives exactly the concatenation of every buffer sudo passes for tty output, stdout and stderr whose logging is enabled, plus for each window resize the escape sequence ESC [ 8 ; lines ; cols t, in call order, with nothing lost, duplicated, reordered or added. Every byte has been handed to the connection by the time the callback returns success, so nothing is shown to the user first; partial or interrupted writes, and a pair that reads slowly, do not change this.",
["histories","inputs","fault_sequences"],"over every sequence of output and resize callbacks, buffer contents and sizes, logging hints, and short or interrupted writes",
NOT+"It is a statement about whole call histories and partial writes.",
[SP+"lib.rs",SP+"socket.rs",PL+"core.rs"],
[("log_output: write_all",SP+"lib.rs"),("hint gating in core",PL+"core.rs"),("change_winsize",SP+"lib.rs")],
["byte stream on the pair's end of the connection","callback return values"])

p("C08","Losing the pair stops the session; ending it disconnects the pair",
"Once the pair's connection is gone, every later callback that has output or a resize to mirror is refused, so sudo terminates the command. When sudo closes the session the pair sees all bytes sent and then end of stream, even if other processes inherited the connection.",
["histories","schedules"],"over every point of a session at which the pair can disappear and every continuation",
NOT+"Needs a peer that disappears at arbitrary points of a call history.",
[SP+"lib.rs",SP+"socket.rs",SP+"errors.rs"],
[("log_output error -> SessionTerminated",SP+"lib.rs"),("Error -> LogStatus::Deny",SP+"errors.rs"),("close: shutdown(Both)",SP+"socket.rs")],
["callback return values after hang-up","end of stream at the pair"])

p("C09","Paired sessions cannot be piped to; exempt ones can",
"In a session that required a pair, any data on a redirected standard input is refused and is not forwarded to the pair, whatever sudo's logging hints say. In an exempt session redirected standard input is always accepted.",
["inputs","histories","configurations"],"over every logging-hint combination, buffer, and position in the session",
NOT+"Depends on combinations of hints the sample configuration never shows.",
[SP+"lib.rs",PL+"core.rs"],
[("log_stdin",SP+"lib.rs"),("IGNORE_IOLOG_HINTS gating",PL+"core.rs")],
["return value of the stdin callback","pair's stream"])

p("C10","The prompt template language",
"Expanding a template copies every byte literally except that a % and the byte after it are replaced together: by the directive's value if the byte is a known directive, else by that byte itself. Expansions are inserted verbatim and never expanded again, at any length and for any byte values; only a lone % at the very end of the template disappears.",
["inputs"],"over all template byte strings and all directive values",
"Unit tests cover about a dozen short ASCII templates.",
[SP+"template.rs"],
[("Spec::expand",SP+"template.rs")],
["prompt bytes received by the pair and by the user's terminal"])

p("C11","Prompts tell the truth",
"In both prompts each directive shows the value sudo reported for this session: %b/%B the approval binary's name/path, %C the full command, %d the command's working directory (the policy's if it set one, else the user's), %h hostname, %H/%W terminal rows/columns (24/80 if unknown), %g/%u the user's real gid/uid, %p sudo's pid, %U the user name. %C contains the program name, the flags given and every argument completely and in order, whatever bytes they contain, so nothing that will run is hidden from the pair. A missing or unreadable template file yields the built-in prompts '%B %u %p\\n' for the user and '%U@%h:%d$ %C\\ny/n? [n]: ' for the pair.",
["inputs","configurations"],"over every user, command line, flag combination and template file",
NOT+"Values include arbitrary bytes and lengths.",
[SP+"lib.rs",PL+"plugin/io_env.rs",PL+"options/settings.rs"],
[("template_spec",SP+"lib.rs"),("invocation / cwd",PL+"plugin/io_env.rs"),("default prompts",SP+"lib.rs")],
["prompt bytes received by the pair and by the user"])

p("C12","The requesting user is shown the prompt verbatim",
"Before sudo waits for the pair, the expanded user prompt is written exactly once and byte for byte to the user's terminal; if there is no terminal, or it cannot be opened or written, it is given to sudo's error-message channel instead, as text and never as a format string. Failing to show it on either channel never changes whether the pair is asked or the outcome.",
["inputs","fault_sequences"],"over every prompt content, terminal state, message-channel result and template",
NOT+"Needs terminals that are absent, unopenable, full or partially writable.",
[SP+"lib.rs",PL+"output/tty.rs",PL+"output/print_facility.rs"],
[("local_pair_prompt fallback chain",SP+"lib.rs"),("PrintFacility::write",PL+"output/print_facility.rs")],
["contents of the terminal file","messages passed to sudo's printf"])

p("C13","Plugin options are honoured, with the documented defaults",
"binary_path, user_prompt_path, pair_prompt_path, socket_dir, gids_enforced and gids_exempted each take effect exactly as given, independent of their order and of unknown options. An option that is absent, or a gid list that is not a comma-separated list of numbers, takes its documented default: /usr/bin/sudo_approve, /etc/sudo_pair.prompt.user, /etc/sudo_pair.prompt.pair, /var/run/sudo_pair, 0, and none.",
["configurations","inputs"],"over all option vectors",
NOT+"No test constructs the plugin's options.",
[SP+"lib.rs",PL+"options/option_map.rs"],
[("From<&OptionMap> for PluginOptions",SP+"lib.rs"),("DEFAULT_* constants",SP+"lib.rs")],
["exemption decision, socket location, prompt contents"])

p("C14","sudo's key=value vectors are parsed faithfully",
"For every NULL-terminated vector of strings (or a NULL vector), lookup by key returns the bytes after the first '=' of the last entry with that key; an entry without '=' is a key whose value is itself; every other key is absent. String lookup returns the value exactly when it is valid UTF-8, and nothing before the start or beyond the terminator of the vector or of any string is read.",
["inputs"],"over all vectors of byte strings",
"Unit tests use eight fixed vectors.",
[PL+"options/option_map.rs"],
[("OptionMap::from_raw / get_bytes / get_str",PL+"options/option_map.rs")],
["OptionMap public API"])

p("C15","Option values convert strictly and never crash",
"Reading an option as a bool, integer of any width, string, path, network address or separated list succeeds with exactly the value the text denotes, and fails cleanly when the text does not denote one (out of range, stray characters, bad list element, missing address or mask) or is not valid UTF-8. A missing key and an unparseable value are reported as different errors that name the key (and value). No value makes the conversion panic.",
["inputs"],"over all keys and value strings and all supported types",
"Unit tests convert one or two values per type; malformed ones are almost absent.",
[PL+"options/traits.rs",PL+"options/option_map.rs",PL+"options/settings.rs"],
[("FromSudoOption impls",PL+"options/traits.rs"),("NetAddr::from_sudo_option",PL+"options/settings.rs"),("OptionMap::get",PL+"options/option_map.rs")],
["OptionMap::get and NetAddr public API"])

p("C16","Every sudo-reported field reaches the plugin faithfully",
"Each field of the parsed settings, user information and command information equals the value sudo passed under the key documented in sudo_plugin(5), interpreted with its documented type, or its documented default when the key is absent or unusable. If a mandatory entry (plugin_dir, plugin_path, progname; cwd, egid, euid, gid, groups, host, pgid, pid, ppid, uid, user) is missing or unusable, opening fails with an error naming it. Unknown keys change no field and stay readable in the raw map, as do the user's environment and the plugin options.",
["inputs"],"over every subset, order and value of the documented keys plus unknown ones",
"No test covers these three parsers.",
[PL+"options/settings.rs",PL+"options/user_info.rs",PL+"options/command_info.rs",PL+"plugin/io_env.rs"],
[("TryFrom<OptionMap>",PL+"options/*.rs"),("IoEnv::new",PL+"plugin/io_env.rs")],
["fields of the environment handed to a plugin"])

p("C17","Derived views of the environment are faithful",
"The reconstructed invocation is the program name, then every given flag in its fixed order with its exact value, then every argument verbatim, separated by single spaces; it mentions no flag that was not given. The working directory is the policy's when set, else the user's. The command's group set is its group vector (or the user's groups when none is given) plus its effective gid, and nothing else.",
["inputs"],"over all settings, argument vectors and group lists",
"No test covers them.",
[PL+"plugin/io_env.rs",PL+"options/settings.rs"],
[("invocation, cwd, runas_gids",PL+"plugin/io_env.rs"),("Settings::flags",PL+"options/settings.rs")],
["public methods of the environment handed to a plugin"])

p("C18","Unsupported plugin API versions are refused",
"A plugin opened with a sudo API version below 1.9 is refused, its own open code never runs, and the user is told the provided and required versions; for every version from 1.9 upwards, any major, it is opened. Encoding a version as sudo's 32-bit number and back is lossless.",
["inputs"],"over all 32-bit version numbers",
"No test covers versions.",
[PL+"version.rs",PL+"plugin/io_env.rs","sudo_plugin-sys/src/lib.rs"],
[("Version::check",PL+"version.rs"),("sudo_api_version_get_major/minor, sudo_api_mkversion","sudo_plugin-sys/src/lib.rs")],
["return value of open, messages, env.api_version"])

p("C19","A panicking plugin never takes sudo down or fails open",
"If a plugin's own code panics in any callback (open, close, show_version, each log callback, change_winsize), the panic does not unwind into sudo or abort the process; open and show_version report refusal and the log callbacks refuse the data. Callbacks after the panic still behave according to the session's state.",
["histories","inputs"],"over every callback, panic payload and position in the session",
"No test drives the C callbacks.",
[PL+"core.rs",PL+"errors.rs"],
[("catch_unwind_open / catch_unwind_log",PL+"core.rs")],
["callback return values, process survival"])

p("C20","Plugin errors become the right sudo status and a readable message",
"When a plugin callback returns an error, sudo receives exactly the status that error converts to, and the user receives on the error channel the error's text followed by the text of each error in its source chain, outermost first, each exactly once on its own line prefixed with the plugin's name. Success returns 1 and prints nothing; reporting always terminates.",
["inputs","histories"],"over every status, error text, chain length and callback",
"No test drives errors through the C callbacks.",
[PL+"core.rs",PL+"output/print_facility.rs",PL+"errors.rs"],
[("map_err + write_error in each callback",PL+"core.rs"),("PrintFacility::write_error",PL+"output/print_facility.rs")],
["callback return values, messages passed to sudo's printf"])

p("C21","Each callback's data reaches the right handler, exactly, when due",
"Each log callback hands the plugin exactly the bytes sudo passed, to the handler of that stream and no other, once; when sudo's logging hint for that stream is off and the plugin does not ask to ignore hints, the handler is not called and success is returned. Window-size changes always arrive with the same lines and columns.",
["histories","inputs","configurations"],"over all call sequences, buffers, hint combinations and both hint policies",
"No test drives the C callbacks.",
[PL+"core.rs",PL+"plugin/io_plugin.rs"],
[("log_* trampolines",PL+"core.rs")],
["handler calls recorded by a probe plugin"])

p("C22","Plugin lifecycle is sound over every call history",
"For every history of open, log, resize, version and close calls that sudo can make, the plugin is opened at most once per session, closed exactly once with sudo's exit status and error, dropped after close and while its environment is still valid, and handlers run only between a successful open and close. Log callbacks outside that window are refused, a version query prints '<name> I/O plugin version <version>' with the plugin's own version on the info channel, and a plain version request (no command) succeeds without opening the plugin.",
["histories"],"over all call sequences, including failing opens and repeated sessions",
"No test drives the C callbacks.",
[PL+"core.rs",PL+"plugin/io_state.rs",PL+"plugin/io_plugin.rs",PL+"macros.rs"],
[("IoState::init / drop",PL+"plugin/io_state.rs"),("sudo_io_plugin!",PL+"macros.rs")],
["events recorded by a probe plugin, callback return values"])

p("C23","Text written through sudo's printf is delivered verbatim",
"Any text a plugin writes to its stdout or stderr handle reaches sudo's message function byte for byte and in order, at the info or error level respectively, never interpreted as a format. A missing message function, a failing one, or text with an embedded NUL yields an error without printing anything else.",
["inputs"],"over all byte strings, splits and message-function results",
"No test covers the print facility.",
[PL+"output/print_facility.rs"],
[("PrintFacility::write / write_line",PL+"output/print_facility.rs")],
["messages passed to sudo's printf"])

p("C24","Plugin descriptors match sudo's C ABI",
"The exported plugin descriptors and the Rust declarations of every plugin structure, constant and callback agree with sudo's C header: type, API version, member order, offset, size and argument order, with members that are not implemented NULL. Every call a C host makes through a descriptor therefore reaches the matching implementation with the arguments it passed.",
["inputs","configurations"],"over every structure member, supported architecture binding, callback and argument value",
"The generated layout tests abort in the baseline, so they check nothing.",
["sudo_plugin-sys/src/bindings","sudo_plugin-sys/src/lib.rs",PL+"macros.rs"],
[("bindings","sudo_plugin-sys/src/bindings/*.rs"),("empty() constructors","sudo_plugin-sys/src/lib.rs"),("sudo_io_plugin!",PL+"macros.rs")],
["member values as read by C code compiled against the header"])

p("C25","The approval script cannot be used to self-approve or inject",
"The sample approval script never connects the requesting user to their own session's socket; it connects directly only to the socket of the named uid and pid when it can write to it, and otherwise re-runs itself through sudo as exactly the socket's owner (if user-writable) or exactly its group (if group-writable), passing on the same uid and pid. Arguments that are not plain numbers are rejected and no argument is ever executed or evaluated.",
["inputs"],"over all argument strings, socket owners, modes and invoking identities",
"The script has no tests.",
["sample/bin/sudo_approve"],
[("main","sample/bin/sudo_approve"),("usage","sample/bin/sudo_approve")],
["commands the script runs (recorded by stand-ins), its exit status"])

p("C26","Concurrent sessions do not interfere",
"When several sudo processes of the same or different users wait for approval at once in one socket directory, each gets its own socket, an answer decides only the session whose socket it was sent to, output of one session is seen only by its own pair, and ending, refusing or interrupting one session neither removes another's socket nor changes its outcome.",
["schedules","histories"],"over all interleavings of several sessions' steps, users and pids",
NOT+"Needs several processes under a controlled schedule.",
[SP+"lib.rs",SP+"socket.rs"],
[("socket_path from uid and pid",SP+"lib.rs"),("unlink of own path only",SP+"socket.rs")],
["each process's open result, directory contents, each pair's stream"])

p("C27","The example approval plugin denies everything",
"The example plugin answers every approval check with a denial, before or after open, for every API version, command and environment, with or without a message function. With a message function it tells the user, and from API 1.17 on it also sets the error string.",
["inputs","histories"],"over all call sequences, versions and arguments",
"The example has no tests.",
["examples/raw_plugin_api/src/lib.rs"],
[("check returns 0","examples/raw_plugin_api/src/lib.rs")],
["return value of check, messages"])
p("C28","A refusal gives the user its one true reason",
"When a session that needs a pair is refused, open returns the deny status (-1), and sudo's error channel carries exactly one of these reasons, the one that applies: the pair declined the session (an answer other than y, or none), communications with the pair could not be established (the socket could not be created, secured, waited on or connected, or the prompt could not be sent), or -u and -g may not both be specified. A log or resize callback that is refused returns 0 and says that the pair ended the session, or, for redirected stdin, that redirection of stdin is prohibited. A session that opens and a callback that succeeds report none of these.",
["inputs","fault_sequences","histories"],"over every answer, hang-up, interrupt, unusable directory, failing system call and history of callbacks",
NOT+"Which reason is due depends on the step at which a session fails.",
[SP+"lib.rs",SP+"errors.rs",PL+"core.rs",PL+"output/print_facility.rs"],
[("ErrorKind and its texts",SP+"errors.rs"),("contexts added to errors",SP+"lib.rs"),("open and log callbacks print the error",PL+"core.rs")],
["status returned by open and the callbacks","messages on sudo's error channel"])

p("C29","The system log records each verdict and never what the session shows",
"When a log daemon listens at /dev/log, each session leaves a record in the auth facility saying whether it was exempt or required a pair, and then whether a pair approved it or (if it gave an answer other than y) declined it, and that the session ended; each such record names the invoking uid, the command's effective uid and gid, the command and its arguments. Nothing typed, read or shown in the session is ever logged. A daemon that is absent, gone or dies during the session changes no outcome.",
["inputs","histories","configurations"],"over every session environment, answer, callback history and state of the log daemon, for records that fit a datagram",
NOT+"No test observes the log.",
[SP+"lib.rs"],
[("slog records of open, remote_pair_prompt and close",SP+"lib.rs"),("slog(): syslog drain or none",SP+"lib.rs")],
["datagrams received at /dev/log","return value of open"])

p("C30","Plugins loaded by one sudo are independent",
"When several plugins built with the library are loaded into one process, each behaves, call for call, as if it were alone: its callbacks' return values, what its own code is given, its environment, the log hints it respects and the messages it prints, through the message function it was given, do not depend on calls made to the other plugins in between, including their failures, panics and closing.",
["histories"],"over all interleavings of several plugins' histories of callbacks",
"The tests never drive a plugin's callbacks, let alone two plugins'.",
[PL+"macros.rs",PL+"core.rs",PL+"plugin/io_state.rs",PL+"output/print_facility.rs"],
[("per-plugin State of sudo_io_plugin!",PL+"macros.rs"),("IoState",PL+"plugin/io_state.rs")],
["return values, recorded activations and messages of each plugin"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    n=len(re.findall(r'[.!?](?:\s|$)',x["statement"]))
    if n>3: print(x["id"],n)
print(len(P))
