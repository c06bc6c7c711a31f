#!/usr/bin/env python3
"""Source of /verif/KNOWN_FINDINGS.jsonl (all defects found so far were repaired; none is open)."""
import json, os, subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ("C09", "5573470", "an API server that accepts a request and never answers blocked the m2m thread for ever, so the identity was never announced again"),
    ("C32", "5573470", "a poll whose API request is never answered never ended, so there were no further polls"),
    ("C25", "5573470", "a report the API never answers kept a poll from its remaining reports for ever"),
    ("C24", "5573470", "a call to a server that never answers never returned"),
    ("C02", "ce6b59a", "decode(b'5') (a length without a colon) never returned; b'5:ab', b'-1:abc', b'd1:a', b'ie' gave short values, the rest of the message, None or assorted exceptions"),
    ("C02", "f55ef66", "decode(b'1'*5000 + b':x') raised OverflowError or ValueError rather than the decode error"),
    ("C03", "d39ebae", "parsing the packet bytes b'le' raised IndexError rather than a packet error"),
    ("C04", "0a652e8", "a message that is not a list but can be indexed (b'10:...' or a dictionary) was taken for a packet or raised out of the handler"),
    ("C05", "1e200a8", "two threads sending at once with compression interleaved the shared deflate state, and frames of large messages could mix"),
    ("C08", "fdf10f1", "a command callback stayed registered after it was called, so a repeated response or the loss of the connection called it again"),
    ("C07", "e4406cd", "channels survived a lost connection, so a reused number on the next connection was closed, or had old data and callbacks"),
    ("C14", "8041733", "a command whose standard output ended with a hang-up (POLLHUP without POLLIN) lost its last output or never completed"),
    ("C14", "8eaec0b", "the channel of a remote command that could not be started was never closed"),
    ("C13", "3961cb3", "ending one forwarded connection shut down the service object that later connections share, or closed another connection's socket"),
    ("C12", "a09caf5", "after a failed send to the local server the forwarding went on, so that later bytes left a gap"),
    ("C13", "3b06914", "a channel closed while its local connection was being made left the connection open for ever"),
    ("C12", "a6f9a3c", "a channel closed while the local server was writing: the socket was closed with unread data, the reset discarded bytes routed before the close"),
    ("C16", "248b31b", "output written just before a terminal's process exited was lost when the hang-up was seen first"),
    ("C16", "f8f5352", "a window size out of range in an open or resize raised in the middle and lost the terminal"),
    ("C16", "c6c8f4b", "input for a terminal whose process does not read was dropped, or blocked the m2m thread for every channel"),
    ("C04", "c6c8f4b", "a terminal whose process does not read stopped the m2m session from serving anything"),
    ("C17", "e79625e", "a terminal closed between the request and the start of its process kept running for ever"),
    ("C17", "f8f5352", "a window size that cannot be set left a started terminal process without an owner"),
    ("C18", "a3f7226", "a terminal with a missing user or group, or one that cannot be assumed, ran with the agent's privileges, or a second copy of the agent went on in the child"),
    ("C18", "6f64005", "logging between fork and exec could deadlock the terminal's child on a lock another thread held"),
    ("C16", "6f64005", "a terminal opened while another thread was logging never started"),
    ("C19", "139c27e", "ids with '../' and sibling directories sharing a name prefix let requests read, write and delete outside their directories"),
    ("C21", "3b9002d", "a download into a folder that had vanished was lost, and a broken link with the requested name was replaced"),
    ("C20", "043f435", "an upload whose copy failed left an incomplete snapshot behind"),
    ("C22", "c904b86", "a directory reachable by a link was listed under the link's parent or missing altogether, depending on order"),
    ("C22", "f180bfb", "one directory that cannot be read made the whole scan fail"),
    ("C23", "da20104", "the scan file was written in place, so that a reader or a crash could see half of it"),
    ("C20", "06be96c", "opening a remote file that is (a link to) a device copied it, which waited for ever or filled the disk, and the m2m session stood still meanwhile"),
    ("C20", "d204f74", "a read of an open upload allocated as much memory as it asked for, and failed if there is not so much or for offsets beyond 2**63, rather than return what there is"),
    ("C21", "d9778dd", "a download whose transfer area is on another disk was to be seen under its name while it was copied, and an incomplete one was left there when the copy failed"),
    ("C23", "6f57ebd", "a scan request whose scan or publication failed was never answered"),
    ("C24", "a2cd43d", "malformed JSON-RPC responses (non-objects, missing error members, foreign ids) raised AttributeError, KeyError or TypeError"),
    ("C24", "c56f70f", "concurrent calls on one client could get the same id"),
    ("C26", "dd279cc", "a clock change between two periods of the watch was not noticed"),
    ("C27", "9ec631f", "the start of undecodable m2m messages, which may be a login packet's password, was logged"),
    ("C27", "07237e0", "an agent that failed to start printed the auth token in a traceback"),
    ("C28", "0b3ac6c", "undecodable bytes were dropped from instructions, so that b'reboot-\\xffdevice' rebooted the device"),
    ("C28", "5df0764", "ill-typed ports, paths and commands raised in the middle or were used as they were"),
    ("C30", "13919e2", "a write to a terminal that had hung up waited for ever, and kept its thread and descriptor"),
    ("C31", "ab9ced4", "an invalid log level ended in a traceback with status 0 or an unclear error"),
    ("C32", "f5edb59", "an interrupt while reading meta information was swallowed by a bare except, so that the agent kept running"),
    ("C33", "79ced6e", "a model name or machine revision that is not UTF-8 kept all meta information from being reported"),
    ("C33", "6e07b92", "after a failed first report the IP addresses of that time were reported, not the present ones"),
    ("C34", "3ce7a9d", "a terminal for which no thread or descriptor was left leaked its pty, and its channel stayed open"),
    ("C34", "e0f29c0", "a terminal closed when no thread was to be had left a zombie, or its process running"),
    ("C34", "9c72887", "a terminal whose process could not be forked left both ends of its pty open"),
    ("C36", "e8d9f92", "any certificate was accepted from a wss server, so that whoever answered in its place could join the agent and run commands on the device"),
    ("C37", "0964d37", "a server that never answered the upgrade request or pings, or stopped reading while data was sent, kept the agent waiting for ever"),
    ("C38", "500b6e8", "snapshots, unfinished downloads and the scan could be read by all users, and links or directories of other users in their place were used, so that files elsewhere were overwritten"),
]


def main():
    with open(ROOT + "/KNOWN_FINDINGS.jsonl", "w") as out:
        for prop, commit, what in FIXED:
            out.write(json.dumps({"property": prop, "status": "fixed", "commit": commit,
                                  "text": "fixed: property=%s %s %s" % (prop, commit, what)}) + "\n")


main()
