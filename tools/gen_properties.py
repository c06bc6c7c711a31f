#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it after editing)."""
import json, os

P = []

def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Bencode encoding is lossless and canonical",
  "Every value built from byte strings, text, integers, lists or tuples and dictionaries with byte-string keys encodes to the one canonical bencode form (shortest integers and lengths, dictionary keys in sorted order), and decoding those bytes returns an equal value, with text as its UTF-8 bytes and tuples as lists. Any other value (floats, None, booleans, dictionaries with non-bytes keys, also when nested) is refused with an exception and never turned into bytes.",
  ["inputs"], "all nested values of the bencode data model, and values outside it",
  "The tests encode about ten literals; nesting, empty and boundary-size values, big and negative integers, and key ordering are an unbounded input space.",
  ["dataplicity/m2m/bencode.py"], [("encode/add_encode recursion, sorted keys", "dataplicity/m2m/bencode.py:encode")],
  ["return value or exception of encode(), decode()"])

p("C02", "Decoding arbitrary bytes ends in a value or a decode error",
  "Decoding any byte string terminates and either returns the value that the well-formed bencode at its start denotes, or raises the codec's decode error. Input that is truncated at any point or malformed (missing or non-numeric length, negative length, bad or empty integer, stray terminator, dictionary key without a value or of a non-bytes type, excessive nesting) never yields a value and never raises anything but the decode error.",
  ["inputs"], "all byte strings, in particular every truncation and small mutation of valid encodings",
  "The tests decode seven valid literals and one bad digit; the message comes from the network, so every truncation and corruption is possible input.",
  ["dataplicity/m2m/bencode.py"], [("recursive descent reader", "dataplicity/m2m/bencode.py:_decode")],
  ["return value or exception of decode()"])

p("C03", "M2M packets round-trip and ill-formed packets are refused",
  "For every registered packet type, a packet built from well-typed fields serialises to bytes that parse back to the same packet type with the same field values. Bytes that are not bencode, not a list starting with an integer, name an unknown type, or have a missing or wrongly typed field are refused with a packet error and never produce a packet.",
  ["inputs"], "all packet types, all well-typed field values, all corruptions of type, arity and field types",
  "The tests round-trip one packet type with one value and reject one example per error.",
  ["dataplicity/m2m/packetbase.py", "dataplicity/m2m/packets.py"],
  [("registry by type number", "dataplicity/m2m/packetbase.py:PacketMeta"), ("init_params type checks", "dataplicity/m2m/packetbase.py:PacketBaseType.init_params")],
  ["M2MPacket.create / from_bytes / as_bytes"])

p("C04", "Hostile server messages never stop or derail the m2m session",
  "Whatever binary messages the server sends (garbage, truncated, unknown types, wrong arity or field types, or messages whose handling fails), the agent keeps the connection, stays responsive and goes on serving later messages in arrival order, and a refused message causes no reply and no other effect. Every well-formed ping is answered by exactly one pong carrying the first 1024 bytes of its data.",
  ["inputs", "histories"], "all sequences of messages mixing well-formed and ill-formed ones",
  "No test drives the receive loop or the dispatcher with incoming messages at all.",
  ["dataplicity/m2m/wsclient.py", "dataplicity/m2m/dispatcher.py", "dataplicity/m2m/bencode.py"],
  [("per-event exception isolation", "dataplicity/m2m/wsclient.py:WSClient.run"), ("decode/dispatch guards", "dataplicity/m2m/wsclient.py:on_binary,on_packet"), ("typed packet construction before handler", "dataplicity/m2m/dispatcher.py:dispatch")],
  ["messages received by a loopback websocket server"])

p("C05", "Concurrent senders never corrupt, lose or reorder outgoing messages",
  "While the connection is up, every message that any thread of the agent sends arrives at the server intact and exactly once, and messages from one thread arrive in the order it sent them. This holds for any number of threads sending at the same time and with websocket compression on or off.",
  ["schedules", "configurations"], "all interleavings of concurrent senders, compression negotiated or not",
  "Tests never send over a websocket; the corruption needs two threads inside one send window.",
  ["dataplicity/m2m/wsclient.py"], [("send_bytes over one shared websocket", "dataplicity/m2m/wsclient.py:WSClient.send_bytes")],
  ["frames decoded by a loopback websocket server"], state=[("write_lock", "serialises compress+write", "WSClient")])

p("C06", "Channel data reaches its own service in order, exactly once",
  "The bytes the server routes to an open channel are delivered, in order and exactly once, to whatever consumes that channel (its callback, the echo service which returns them unchanged on the same channel, or blocking and non-blocking reads of any size by one or more threads), and never to another channel. Control messages reach only the control consumer, and once a channel has been closed nothing more is delivered to its consumers or written for it.",
  ["schedules", "histories", "inputs"], "all interleavings of routed messages over many channels, reads of any size, and closes",
  "Tests deliver one message to one channel and read it single-threaded.",
  ["dataplicity/m2m/wsclient.py", "dataplicity/m2m/echoservice.py"],
  [("per-channel deque and lock", "dataplicity/m2m/wsclient.py:Channel.on_data,read"), ("channel table", "dataplicity/m2m/wsclient.py:WSClient.get_channel,handle_route")],
  ["Channel.read results, callback invocations, echoed messages on the wire"])

p("C07", "Every channel closes exactly once and its number can be reused",
  "When the server closes a channel, or the connection is lost, the close callback of each affected channel runs exactly once, even if another channel's callback raises. After that the same channel number, on the same or a later connection, denotes a fresh open channel without data, callbacks or closed state left over from the old one.",
  ["histories", "fault_sequences"], "all histories of open, data, close, failing callbacks, connection loss and reuse of numbers",
  "Tests close a single channel object once, with no client, no connection loss and no reuse.",
  ["dataplicity/m2m/wsclient.py"],
  [("on_notify_close removes the channel", "dataplicity/m2m/wsclient.py:on_notify_close"), ("hard_close_channels", "dataplicity/m2m/wsclient.py:on_disconnected")],
  ["callback invocations, is_closed, data delivered on reused numbers"])

p("C08", "Every command callback fires exactly once",
  "A callback registered for a command is invoked exactly once: with the result when the server responds to that command, or with no result if the connection is lost first. A raising callback does not prevent others from running, and responses to other, unknown or already answered commands invoke nothing.",
  ["histories", "fault_sequences"], "all histories of registrations, responses (duplicate, unknown, reordered) and connection losses",
  "No test registers a command callback.",
  ["dataplicity/m2m/wsclient.py"], [("callbacks table", "dataplicity/m2m/wsclient.py:callback,clear_callbacks")],
  ["callback invocations"])

p("C09", "The m2m identity is announced until acknowledged, then not again",
  "Whenever the m2m server assigns the agent an identity, the agent associates exactly that identity with the device through an API request authenticated with the configured serial and auth token, repeats the attempt on its regular polls after any kind of API failure or refusal, and stops once the API has accepted both the authentication and the association. An acknowledged identity is not announced again unless it changes, and no announcement is made while there is no identity.",
  ["fault_sequences", "histories"], "all sequences of identity assignments, polls, disconnects and API outcomes (accept, refuse, error, malformed, unreachable)",
  "No test exercises identity association; the retry rule is over histories of failures.",
  ["dataplicity/m2mmanager.py", "dataplicity/client.py", "dataplicity/m2m/wsclient.py"],
  [("notified_identity", "dataplicity/m2mmanager.py:set_identity"), ("authenticated batch", "dataplicity/client.py:set_m2m_identity"), ("poll-driven retry", "dataplicity/m2m/wsclient.py:sync_identity")],
  ["requests received by a fake API server"])

p("C10", "The agent reconnects and rejoins after any connection failure",
  "After the m2m connection fails in any way (refused, rejected upgrade, reset, cut in mid-frame, protocol error, clean close), the agent connects again after a bounded back-off, asks to join as a new node, and serves requests on the new connection as it did before. It sends the join request exactly once per established connection.",
  ["fault_sequences"], "all sequences of connection failure modes, at any point of a session",
  "Tests never have a reachable m2m server.",
  ["dataplicity/m2m/wsclient.py"], [("persist loop with back-off", "dataplicity/m2m/wsclient.py:run"), ("on_ready join", "dataplicity/m2m/wsclient.py:on_ready"), ("on_disconnected reset", "dataplicity/m2m/wsclient.py:on_disconnected")],
  ["connections and messages seen by a loopback websocket server"])

p("C11", "Service and terminal slots are never exceeded and always returned",
  "At no time do more services (commands, files, port forwards together) or terminals run than their configured limits; a request beyond the limit starts nothing and is answered with a busy message or error before its channel is closed. Every started service gives back exactly one slot however it ends (normal end, error, closed channel, lost connection, failure to start), so the full capacity is available again once all have ended.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of starts, ends and failures of all service kinds at and around the limit",
  "Tests never fill a limiter or end a service.",
  ["dataplicity/limiter.py", "dataplicity/m2mmanager.py", "dataplicity/portforward.py", "dataplicity/m2m/commandservice.py", "dataplicity/m2m/fileservice.py", "dataplicity/m2m/remoteprocess.py"],
  [("limiter context and decrement in finally", "dataplicity/limiter.py")],
  ["number of concurrently served requests, busy replies, acceptance after release"])

p("C12", "Port forwarding relays bytes exactly in both directions",
  "The bytes the local server receives on a forwarded connection are a prefix of the bytes routed to its channel, in order and without gaps, including bytes routed before the local connection is established; the bytes sent on the channel are a prefix of what the local server wrote. If neither side fails, all bytes routed before the channel is closed reach the local server, and all bytes the local server writes before closing reach the channel before its close is requested.",
  ["inputs", "schedules"], "all byte streams, chunkings, connect delays and close orders",
  "Port-forward tests patch out the connection; no byte is ever relayed.",
  ["dataplicity/portforward.py"], [("read_buffer flush under lock", "dataplicity/portforward.py:_flush_buffer"), ("recv loop", "dataplicity/portforward.py:_run")],
  ["bytes at a loopback TCP server and on the m2m channel"])

p("C13", "Port-forward connections end cleanly and independently",
  "A forwarded connection goes to exactly the requested local port (or the named service's port) on the loopback address, and an unknown service opens nothing. When the local server closes, resets or refuses, the agent promptly requests the close of that channel; when the channel closes, the local server sees end of stream; and neither affects any other forwarded connection, present or future.",
  ["histories", "fault_sequences"], "all histories of concurrent forwards ended by either side in any way, at any time",
  "Tests only check that a connect function was called.",
  ["dataplicity/portforward.py", "dataplicity/m2mmanager.py"], [("connection loop and shutdown", "dataplicity/portforward.py:Connection._run"), ("service table", "dataplicity/portforward.py:PortForwardManager.init,open,redirect_port")],
  ["connections at loopback TCP servers, close requests on channels"])

p("C14", "Remote commands stream exactly their stdout and always complete",
  "A remote command's standard output, and nothing else, is sent on its channel complete and in order, followed by one completion message carrying the command's real exit status and then a request to close the channel, whatever the command does with its standard error and however it terminates. If the channel is closed first, the command's shell is killed and nothing more is sent on the channel; a command that cannot be started yields an error message and the close.",
  ["inputs", "schedules", "fault_sequences"], "all commands (output sizes, stderr use, early closed descriptors, exit codes, signals) and channel closes at any time",
  "No test runs a command.",
  ["dataplicity/m2m/commandservice.py"], [("poll loop over stdout and stderr", "dataplicity/m2m/commandservice.py:_run_service")],
  ["channel data, control and close messages; processes alive"])

p("C15", "Remote file reads stream exactly the file",
  "A read-file request sends the exact contents of the named regular file in order on its channel and then requests the close of the channel; relative paths are taken from the filesystem root. If the file cannot be opened or read, one error control message and then the close request are sent, and when the channel is closed in mid-transfer sending stops.",
  ["inputs", "fault_sequences"], "all file sizes and contents, missing or unreadable paths, channel closes and read errors at any point",
  "No test reads a file through the service.",
  ["dataplicity/m2m/fileservice.py"], [("chunked read loop", "dataplicity/m2m/fileservice.py:_run_service")],
  ["channel data, control and close messages"])

p("C16", "Terminals relay input, output and window size faithfully",
  "Everything the terminal's process writes is sent on its channel in order and complete, including output written just before it exits and when the connection is slow; everything routed to the channel reaches the process in order, including input that arrives right after the terminal is opened. The process sees the window size (columns, lines) given when opening or by the latest valid resize, and malformed control messages change nothing and leave the terminal usable. Once the process has ended, further input is answered with a request to close the channel and, like further sizes, never gets to another terminal.",
  ["inputs", "schedules"], "all input/output streams, timings of first input, resizes and malformed controls",
  "No test opens a terminal.",
  ["dataplicity/m2m/remoteprocess.py", "dataplicity/m2m/proxy.py", "dataplicity/m2mmanager.py"],
  [("pty copy loop", "dataplicity/m2m/proxy.py:_copy"), ("write_master", "dataplicity/m2m/proxy.py:write_master"), ("window size ioctl", "dataplicity/m2m/proxy.py:_set_pty_size")],
  ["channel data; what a probe process under the pty observes"])

p("C17", "Terminal processes never outlive their channel",
  "When a terminal's channel is closed or the connection is lost, at any moment from the request to open it onwards, its process is sent a hang-up, is killed if it has not exited after the grace period, and is reaped, so that no terminal process or zombie remains. Closing one terminal does not disturb another terminal's process.",
  ["schedules", "fault_sequences", "crash_points"], "closes at every point of a terminal's life, and processes that ignore hang-ups",
  "No test starts or closes a terminal process.",
  ["dataplicity/m2m/remoteprocess.py", "dataplicity/m2mmanager.py", "dataplicity/m2m/proxy.py"],
  [("SIGHUP on close", "dataplicity/m2m/remoteprocess.py:close"), ("SIGKILL and reaping", "dataplicity/m2m/remoteprocess.py:PidWaitThread")],
  ["process table, signals seen by probe processes"])

p("C18", "Terminals run only with their configured user and group",
  "A terminal configured with a user, a group or both runs its command with exactly that user id and group id. If the configured user or group does not exist or cannot be assumed, the command is not run at all, in particular not with the agent's own privileges.",
  ["configurations", "fault_sequences"], "all combinations of user and group settings: absent, existing, unknown, refused",
  "No test configures a terminal user.",
  ["dataplicity/m2m/proxy.py", "dataplicity/m2mmanager.py"], [("setuid/setgid in the child", "dataplicity/m2m/proxy.py:spawn")],
  ["uid/gid reported by a probe process under the pty"])

p("C19", "Remote file requests cannot reach outside their directories",
  "Whatever paths and ids the server supplies in open, read, close and write remote-file requests, the agent reads only files lexically inside the remote directory (or the published scan file) and its own snapshots, creates or overwrites files only inside the remote directory and its own snapshot and download areas, and deletes only its own snapshots and downloads. A request that would go elsewhere is refused with a failure result and changes nothing.",
  ["inputs", "histories"], "all path, id and device-path strings (absolute, parent references, separators, empty, NUL, non-UTF-8), alone and in sequences",
  "The remote directory has no tests.",
  ["dataplicity/remote_directory.py"], [("validate_path and prefix check", "dataplicity/remote_directory.py:add_upload,get_snapshot_path,add_download,copy_download")],
  ["filesystem state outside the areas; contents of result messages"])

p("C20", "Uploads are served from an immutable snapshot",
  "After a remote file is opened successfully with a reported size, every read returns exactly the bytes at the requested offset of the file as it was when opened (clipped at its end), for any order, overlap and repetition of reads and any later change, replacement or deletion of the original, until the upload is closed; then its snapshot file is gone and reads of it fail. Every open and read request gets exactly one result that repeats its id (and, for reads, offset and size), and opening fails without leaving a usable upload when the file is missing or cannot be copied completely, or a snapshot would eat into the free-space margin.",
  ["histories", "inputs", "fault_sequences"], "all interleavings of opens, reads, closes, source changes and faults over many uploads",
  "The remote directory has no tests.",
  ["dataplicity/remote_directory.py"], [("snapshot copy", "dataplicity/remote_directory.py:add_upload"), ("read at offset", "dataplicity/remote_directory.py:read_upload")],
  ["result messages, snapshot directory"])

p("C21", "Downloads are assembled exactly and never overwrite anything",
  "A file written through a sequence of write requests appears in the remote directory only with the final request, with exactly the written bytes at their offsets for any chunking and order, under the requested name or, if that exists, the first free name(N).ext, and no pre-existing file there is ever changed. If the requested folder does not exist the file goes to the top of the remote directory, and every write request gets exactly one result carrying its id, the reached position and either success or the failing stage.",
  ["inputs", "histories", "fault_sequences"], "all chunkings, names, collisions, concurrent transfers and I/O failures",
  "The remote directory has no tests.",
  ["dataplicity/remote_directory.py"], [("on_write_remote_file", "dataplicity/remote_directory.py"), ("unique naming and move", "dataplicity/remote_directory.py:copy_download")],
  ["remote directory contents, result messages"])

p("C22", "A directory scan lists exactly the visible tree and terminates",
  "A scan of a quiescent directory reports every non-hidden directory down to the depth limit and every non-hidden regular file (or link to one) in them, each once, under its real parent, with its size when sizes are asked for (-1 otherwise), and nothing hidden, special or non-existent. It lists what a link to a directory leads to below the link, unless that has been listed below a link before, and it terminates and stays complete in the presence of links to ancestors and of each other, unreadable or vanishing entries, and unusual names.",
  ["inputs", "schedules"], "all directory trees, link structures, depths and names; entries changing during the scan",
  "The scanner has no tests.",
  ["dataplicity/scan_directory.py"], [("iterative scandir with visited set", "dataplicity/scan_directory.py:scan_directory")],
  ["returned structure"])

p("C23", "The published scan is always complete and requests are answered",
  "Whoever opens the published scan file, at any time after the first successful scan, during further scans or after a crash in the middle of one, gets one complete JSON document produced by a single scan. A scan request from the server that starts a scan is answered exactly once: with success only after that scan has been published, or with an error if the scan or its publication failed; a request made while a scan is running starts no second concurrent scan.",
  ["schedules", "crash_points", "fault_sequences"], "all interleavings of scans and opens, crashes and faults at every point of publishing",
  "No test scans or publishes.",
  ["dataplicity/directory_scanner.py", "dataplicity/remote_directory.py", "dataplicity/m2m/wsclient.py"],
  [("write_scan", "dataplicity/directory_scanner.py"), ("on_success reply", "dataplicity/m2m/wsclient.py:on_scan_remote_directory")],
  ["bytes of the served scan snapshot, result messages"])

p("C24", "JSON-RPC results match their calls and failures are typed",
  "A call or batch returns a result only if the API's response carries that call's own id, in whatever order a batch's responses arrive; an error response raises the remote error with the server's code, message and data, a malformed or mismatched response raises a protocol error (a call missing from a batch's response, an error), and an unreachable or unresponsive server raises the unreachable error. Every request sent is well-formed JSON-RPC 2.0 holding exactly the calls made, notifications carry no id, ids within a client are distinct, and an abandoned or failed batch sends nothing.",
  ["inputs", "fault_sequences"], "all responses, well- or ill-formed, and all transport failures, for calls and batches",
  "Tests serve a handful of canned responses.",
  ["dataplicity/jsonrpc.py"], [("id and version checks", "dataplicity/jsonrpc.py:JSONRPC.call"), ("result/error maps", "dataplicity/jsonrpc.py:Batch.send,get_result")],
  ["requests at a fake API server; return values and exceptions"])

p("C25", "Device state is reported until the API acknowledges it",
  "On its polls the agent reports device meta information until the API has accepted the authentication and all of the meta items, and never again afterwards; it reports the machine tags whenever they differ from the last accepted list; and it attempts to report the root filesystem's capacity and used space on its first poll and then once whenever an hour has passed since the last attempt, never more often. Each report is one batch that first authenticates with the configured serial and auth token, and no API failure or response makes a poll raise or skips its remaining reports.",
  ["fault_sequences", "histories"], "all sequences of polls, API outcomes per item, tag changes and clock advances",
  "Tests check one disk poll (needing the network) and one failing sync.",
  ["dataplicity/client.py", "dataplicity/disk_tools.py", "dataplicity/device_meta.py"],
  [("_sent_meta", "dataplicity/client.py:_sync,_check_meta"), ("_tag_list", "dataplicity/client.py:tag_poll"), ("next_disk_poll_time", "dataplicity/client.py:disk_poll")],
  ["requests received by a fake API server"])

p("C26", "Only a large forward clock jump restarts the agent",
  "If the system clock jumps forward by more than three minutes while the agent runs, the agent kills its own process (and nothing else) with SIGKILL within a few seconds, so that its supervisor restarts it. Backward jumps and forward jumps of less than 170 seconds never do, however many of them there are, and the watch ends when the agent shuts down.",
  ["histories", "schedules"], "all histories of clock readings",
  "The clock check has no tests.",
  ["dataplicity/clockcheck.py", "dataplicity/client.py"], [("elapsed check", "dataplicity/clockcheck.py:ClockCheckThread.run")],
  ["kill requests recorded under a virtual clock"])

p("C27", "Credentials never reach the logs or the m2m server",
  "At every log level, and whatever requests, responses, errors and malformed messages occur, the device's auth token and the passwords in login packets never appear in log output or in the printable form of a packet (unless the API itself sends the token back). The auth token is sent only to the API endpoint and never over the m2m connection.",
  ["inputs", "fault_sequences"], "all traffic, including failing and malformed traffic, at all log levels",
  "Tests do not inspect logs for secrets.",
  ["dataplicity/m2m/packetbase.py", "dataplicity/client.py", "dataplicity/jsonrpc.py", "dataplicity/m2m/dispatcher.py"],
  [("password masking", "dataplicity/m2m/packetbase.py:__repr__"), ("logging of sizes and responses only", "dataplicity/jsonrpc.py:_send")],
  ["all log records, repr of packets, all bytes received by the fake m2m server"])

p("C28", "Each instruction performs exactly the action it names",
  "An instruction from the server triggers exactly the one action it names, with the arguments it carries, on the channel it names; unknown, incomplete or malformed instructions start no process, connection, terminal, scan or sync and leave the session usable. In particular the device's reboot command is run only, and exactly once, for a reboot instruction.",
  ["inputs", "histories"], "all instruction dictionaries, well- and ill-formed, in sequences",
  "One test checks one redirect instruction.",
  ["dataplicity/m2mmanager.py", "dataplicity/m2m/wsclient.py"], [("action dispatch", "dataplicity/m2mmanager.py:on_instruction"), ("isolation", "dataplicity/m2m/wsclient.py:on_instruction_packet")],
  ["recorded process launches, connections, API requests, channel traffic"])

p("C29", "Machine tags are exactly the words the tag script prints",
  "The machine tags are the non-empty words that the device's tag script prints, split at commas and white space, in order, each cut to 25 characters, with undecodable bytes dropped. A missing or non-executable script means no tags, and a script that fails is reported as a tag error and never as a tag list.",
  ["inputs", "fault_sequences"], "all script outputs, exit statuses and file conditions",
  "The tag reader has no tests.",
  ["dataplicity/tags.py"], [("split and cut", "dataplicity/tags.py:get_tag_list")],
  ["return value or exception of get_tag_list; tags received by a fake API"])

p("C30", "Ended services leave no threads, descriptors or processes behind",
  "After any history of terminals, commands, file reads, port forwards, uploads, scans and lost connections, once their channels have closed the agent holds no additional threads, open file descriptors, child processes, zombies, open channels or undelivered buffers compared with before.",
  ["histories", "fault_sequences"], "all histories of service use, including refused and failed ones and connection losses",
  "Tests run no service to its end.",
  ["dataplicity/m2m/wsclient.py", "dataplicity/portforward.py", "dataplicity/m2m/remoteprocess.py", "dataplicity/m2m/commandservice.py", "dataplicity/m2m/fileservice.py"],
  [("thread exit and channel removal", "dataplicity/m2m/wsclient.py:on_notify_close,hard_close_channels"), ("descriptor closing", "dataplicity/portforward.py, dataplicity/m2m/proxy.py")],
  ["/proc of the agent process, open channel list"])

p("C31", "Configuration comes from arguments, environment and files as documented",
  "The agent uses the serial, auth token, API and m2m addresses and remote directory given on the command line, else those of the environment or the device files (stripped of surrounding white space), advertises its features in the m2m address unless the address has its own query, and honours integer limits from the environment, ignoring non-integer ones. If required credentials are missing or an argument is invalid it exits promptly with a non-zero status and an error message, contacting no server.",
  ["configurations"], "all combinations of arguments, environment variables and files, present, absent or malformed",
  "Tests construct a client from files once and fail once on a missing serial.",
  ["dataplicity/app.py", "dataplicity/client.py", "dataplicity/constants.py"], [("argument parsing", "dataplicity/app.py"), ("fallback chain", "dataplicity/client.py:_init"), ("get_environ_int", "dataplicity/constants.py")],
  ["requests seen by loopback servers, exit status, stderr"])

p("C32", "The agent keeps polling through failures and stops when asked",
  "Once started, the agent polls once in every poll period (missed polls are not caught up on) whatever the previous polls' API calls did (failing, cut off, never answered, answered with nonsense), with at most one poll or server-requested sync of meta information running at a time. When asked to exit, or interrupted, it stops polling, ends its clock watch, runs its shutdown exactly once and returns.",
  ["schedules", "fault_sequences"], "all sequences of API behaviours and exit requests at any time, and concurrent sync instructions",
  "Tests replace poll() by one that raises at once.",
  ["dataplicity/client.py"], [("run_forever", "dataplicity/client.py"), ("_sync_lock", "dataplicity/client.py:sync")],
  ["requests at a fake API server, return of run_forever"])

p("C33", "The reported description of the device is accurate",
  "The agent version, machine revision, model name, operating system, uname and IPv4 addresses (up to 100) that the agent reports are those of the device at the time of the report, even if earlier reports failed. The revision is what the kernel's processor information names so, the model is what its device tree says, whatever their encoding, and the addresses are those of all interfaces. A revision, model or address list that cannot be determined is reported as none or empty and does not keep the rest from being reported.",
  ["inputs", "configurations", "histories"], "all contents of the kernel's and distribution's files, absent, unreadable or oddly encoded ones, and all network configurations and their changes between reports",
  "Tests check one sample file per kind and replace the address query by a constant.",
  ["dataplicity/device_meta.py", "dataplicity/rpi.py", "dataplicity/iptool.py", "dataplicity/client.py"],
  [("meta information", "dataplicity/device_meta.py:get_meta"), ("revision and model", "dataplicity/rpi.py, dataplicity/device_meta.py"), ("addresses", "dataplicity/iptool.py:get_all_interfaces")],
  ["meta requests received by a fake API", "ip addr in a network namespace"])

p("C34", "A lack of descriptors or threads only hurts what needs them, while it lasts",
  "While the agent cannot get more file descriptors, threads or processes, each request is either served or refused (its channel closed, its result a failure), nothing is half done and passed off as complete, and neither the m2m connection nor the agent ends because of it. Once there is enough again, everything works as before: lost connections are made again, polls go on, all slots of services and terminals are there, and no thread, descriptor or process of a failed or ended service is left.",
  ["fault_sequences", "configurations", "histories"], "all requests and ends of services at any number of remaining descriptors, threads and processes",
  "Tests never run out of anything.",
  ["dataplicity/m2m/remoteprocess.py", "dataplicity/m2m/proxy.py", "dataplicity/m2m/commandservice.py", "dataplicity/m2m/fileservice.py", "dataplicity/portforward.py", "dataplicity/m2m/wsclient.py", "dataplicity/m2mmanager.py", "dataplicity/remote_directory.py", "dataplicity/client.py"],
  [("services' threads, limiter", "dataplicity/m2m/*service.py, dataplicity/limiter.py"), ("terminal's process and pty", "dataplicity/m2m/proxy.py:spawn"), ("hang up and reaping", "dataplicity/m2m/remoteprocess.py:_hang_up")],
  ["m2m packets at a loopback server, /proc of the agent process under lowered kernel limits"])

p("C35", "Log records are kept as configured, within bounds, and never hurt the agent",
  "With a log file, each record at or above the log level (INFO unless chosen, only critical ones when quiet) is appended to it once and in full, in each thread's order, else it goes to standard error; records below the level go nowhere. The log files together stay below about 33 MB, holding the latest records without gaps, and trouble writing the log never stops the agent. A run that fails says why and its version on standard error and ends with a failure, with a traceback only in debug mode; the version command and options print the version without running anything, and a missing command gives help and a failure.",
  ["inputs", "configurations", "schedules"], "all records, threads, log levels, log places and command lines",
  "Tests never look at the log.",
  ["dataplicity/app.py", "dataplicity/subcommand.py", "dataplicity/subcommands/run.py", "dataplicity/subcommands/version.py"],
  [("logging set-up", "dataplicity/app.py:_init_logging"), ("failures", "dataplicity/app.py:run")],
  ["log files, standard error and exit status of whole processes"])

p("C36", "Over secure addresses the agent deals only with servers that prove who they are",
  "When the API or m2m address is a secure one (https or wss), the agent sends nothing (no serial, token, request to join or data) and obeys nothing on a connection until the server has shown a certificate that the device trusts and that is valid for the addressed name at this time. Servers that fail in this, or break the handshake, are treated as unreachable: the agent keeps running and trying, and works with the first server that proves itself. Over secure connections everything is served and transmitted unchanged, as over plain ones.",
  ["inputs", "histories", "fault_sequences"], "all certificates, handshakes, host names and orders of good and bad servers",
  "Tests use no secure servers.",
  ["dataplicity/m2m/wsclient.py", "dataplicity/jsonrpc.py", "dataplicity/client.py", "dataplicity/app.py"],
  [("m2m connection", "dataplicity/m2m/wsclient.py:VerifiedSession"), ("API calls", "dataplicity/jsonrpc.py:call")],
  ["bytes that come through a TLS server on loopback"])

p("C37", "A silent m2m server is given up, a slow one is not",
  "When the m2m server falls silent without closing the connection (it never completes its answer to the upgrade request, no longer answers pings, or no longer reads what the agent sends), whether the agent is idle or sending all it can, the agent gives the connection up within an hour (about ten minutes), ends what ran on it, joins anew and serves as after any other failure, and its polls go on meanwhile. A server that answers and reads late, but within a few minutes, keeps its connection.",
  ["fault_sequences", "schedules", "histories"], "all moments and kinds of silence, under all loads",
  "Tests use no server that falls silent.",
  ["dataplicity/m2m/wsclient.py"],
  [("time limits of the connection", "dataplicity/m2m/wsclient.py:SILENCE_TIMEOUT")],
  ["connections and packets at a loopback server, processes of the agent"])

p("C38", "Other users of the device can neither read nor change remote files on their way",
  "Snapshots of uploads, unfinished downloads and the published listing of the remote directory, which lie in temporary directories all users can write to, can be neither read nor changed by other users (root aside), whatever the umask. If another user has put files, directories or links in their places beforehand, the agent reads, overwrites and removes nothing through them: each request is either refused or does what it should, and everything works once they are gone.",
  ["inputs", "histories", "schedules", "configurations"], "all histories of remote file requests, umasks and things put in the way",
  "Tests run as one user.",
  ["dataplicity/remote_directory.py", "dataplicity/directory_scanner.py"],
  [("private directories", "dataplicity/remote_directory.py:make_private_directory"), ("scan file", "dataplicity/directory_scanner.py:write_scan")],
  ["what a process of another user can open below the temporary directory; files elsewhere; results on the wire"])

p("C39", "A stuck service holds up neither the m2m session nor other services",
  "While commands, terminals, file transfers, port forwards or directory scans make no progress (a process that sleeps, is stopped, ignores signals or does not read its input; a file that does not answer; a local server that accepts or reads nothing; a file system that hangs), the agent goes on answering pings and serving other channels, existing and new ones of every kind, within seconds. Sending data to such a service, closing its channel, using the channel number again or losing the connection does not change this; the most that one can cost is about five seconds for each local server that does not read what it is sent.",
  ["schedules", "fault_sequences", "histories"], "all combinations of stuck services, what is done to them, and other services used meanwhile",
  "Tests run one service at a time, none of which is stuck.",
  ["dataplicity/m2m/remoteprocess.py", "dataplicity/m2m/commandservice.py", "dataplicity/m2m/fileservice.py", "dataplicity/portforward.py", "dataplicity/directory_scanner.py", "dataplicity/m2m/wsclient.py"],
  [("a thread per service", "dataplicity/m2mmanager.py:on_instruction"), ("input queue of a terminal", "dataplicity/m2m/remoteprocess.py:_write_input"), ("hang-up without waiting", "dataplicity/m2m/remoteprocess.py:_hang_up"), ("socket timeout", "dataplicity/portforward.py:_connect"), ("background scan", "dataplicity/directory_scanner.py:perform_scan")],
  ["time until pings and requests on other channels are answered at a loopback websocket server"])

p("C40", "What is over leaves nothing in the agent's memory",
  "However many services, terminals, remote file requests, scans, polls, identities, messages (refused ones included) and connections the agent has been through, once they have ended it keeps no objects, container entries or text on their account: going through as many again leaves no more in memory than before. This holds however they ended, also when they could not be started.",
  ["histories", "fault_sequences"], "all histories of work of every kind, with every kind of end",
  "Tests never look at memory, and never do the same thing often enough for a leak to show.",
  ["dataplicity/m2mmanager.py", "dataplicity/m2m/wsclient.py", "dataplicity/portforward.py", "dataplicity/remote_directory.py", "dataplicity/client.py"],
  [("closed terminals pruned", "dataplicity/m2mmanager.py:_prune_closed"), ("channel table", "dataplicity/m2m/wsclient.py:on_notify_close,hard_close_channels"), ("callbacks table", "dataplicity/m2m/wsclient.py:clear_callbacks")],
  ["objects, container entries and bytes of text known to the garbage collector"])

p("C41", "Transfers of remote files survive the agent's being killed",
  "If the agent is killed at any point and started again, an upload that had been reported as opened still reads as when it was opened, and a download goes on from the parts that had been acknowledged to exactly the file that was sent; requests that had no answer can be made again, or, if they were the last of a download, have stored it already. At no time does the remote directory show a file that is not complete or have a download twice, and once all transfers are over no files of theirs are left in the temporary directories.",
  ["crash_points", "histories", "fault_sequences"], "all histories of uploads and downloads, all moments of death, also during recovery",
  "Tests use one object in one process that never dies.",
  ["dataplicity/remote_directory.py"],
  [("persistent snapshots by upload id", "dataplicity/remote_directory.py:get_snapshot_path"), ("persistent downloads by path", "dataplicity/remote_directory.py:on_write_remote_file"), ("atomic storing", "dataplicity/remote_directory.py:copy_download,_move")],
  ["results at a loopback websocket server before and after the restart; files of the remote and temporary directories"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
