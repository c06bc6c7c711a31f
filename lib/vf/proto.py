"""The m2m protocol as its server knows it: packet numbers and fields (fixed table)."""

TABLE = [
    (0, "null", []),
    (1, "request_join", []),
    (2, "request_identify", [("uuid", bytes)]),
    (3, "welcome", []),
    (4, "log", [("text", bytes)]),
    (5, "request_send", [("channel", int), ("data", bytes)]),
    (6, "route", [("channel", int), ("data", bytes)]),
    (7, "ping", [("data", bytes)]),
    (8, "pong", [("data", bytes)]),
    (9, "set_identity", [("uuid", bytes)]),
    (11, "request_close", [("port", int)]),
    (13, "keep_alive", []),
    (14, "notify_open", [("channel", int)]),
    (15, "request_login", [("username", bytes), ("password", bytes)]),
    (16, "instruction", [("sender", bytes), ("data", dict)]),
    (17, "notify_login_success", [("user", bytes)]),
    (18, "notify_login_fail", [("message", bytes)]),
    (19, "notify_close", [("port", int)]),
    (20, "request_leave", []),
    (21, "route_control", [("channel", int), ("data", bytes)]),
    (22, "request_send_control", [("channel", int), ("data", bytes)]),
    (24, "open_remote_file", [("upload_id", bytes), ("path", bytes)]),
    (25, "open_remote_file_result", [("upload_id", bytes), ("size", int), ("fail", int), ("fail_reason", bytes)]),
    (26, "close_remote_file", [("upload_id", bytes)]),
    (27, "read_remote_file", [("upload_id", bytes), ("offset", int), ("size", int)]),
    (28, "read_remote_file_result", [("upload_id", bytes), ("offset", int), ("size", int), ("data", bytes), ("fail", int), ("fail_reason", bytes)]),
    (29, "scan_remote_directory", []),
    (30, "scan_remote_directory_result", [("error", bytes)]),
    (31, "write_remote_file", [("id", bytes), ("path", bytes), ("device_path", bytes), ("offset", int), ("data", bytes), ("final", int)]),
    (32, "write_remote_file_result", [("id", bytes), ("position", int), ("chunk_size", int), ("device_path", bytes), ("fail", int), ("fail_reason", bytes)]),
    (100, "response", [("command_id", int), ("result", dict)]),
    (101, "command_add_route", [("command_id", int), ("node1", bytes), ("port1", int), ("node2", bytes), ("port2", int), ("requester", bytes), ("forwarded", int)]),
    (102, "command_send_instruction", [("command_id", int), ("node", bytes), ("data", dict)]),
    (103, "command_log", [("command_id", int), ("node", bytes), ("text", bytes)]),
    (104, "command_broadcast_log", [("command_id", int), ("text", bytes)]),
    (106, "command_set_name", [("command_id", int), ("node", bytes), ("name", bytes)]),
    (107, "command_check_nodes", [("command_id", int), ("nodes", list)]),
    (108, "command_get_identities", [("command_id", int), ("nodes", list)]),
    (109, "command_set_auth", [("command_id", int), ("expire", int), ("value", bytes)]),
    (110, "command_set_meta", [("command_id", int), ("requester", bytes), ("node", bytes), ("key", bytes), ("value", bytes)]),
    (111, "command_get_meta", [("command_id", int), ("requester", bytes), ("node", bytes)]),
    (200, "peer_add_route", [("command_id", int), ("requester", bytes), ("node1", bytes), ("port1", int), ("node2", bytes), ("port2", int)]),
    (201, "peer_forward", [("recipient", bytes), ("packet", bytes)]),
    (202, "peer_notify_disconnect", [("node", bytes)]),
    (203, "peer_notify_name", [("node", bytes), ("name", bytes)]),
    (204, "peer_close_port", [("node", bytes), ("port", int)]),
]
# Numbers that are part of the protocol's enumeration but have no packet format.
RESERVED = {10: "request_open", 12: "request_close_all"}

BY_NAME = {name: (number, fields) for number, name, fields in TABLE}
BY_NUMBER = {number: (name, fields) for number, name, fields in TABLE}
N = {name: number for number, name, _fields in TABLE}


def name_of(packet):
    if isinstance(packet, list) and packet and isinstance(packet[0], int):
        entry = BY_NUMBER.get(packet[0])
        return entry[0] if entry else "?%d" % packet[0]
    return "?"
