NAME = "dataplicity/iptool.py"
EDITS = [
    ('''    for offset in range(0, if_buffer_size, struct_size):
        _iface = ifaces[offset : offset + struct_size]
        name, _, _ = _iface.partition(b"\\0")
        ip = socket.inet_ntoa(_iface[20:24])  # struct sockaddr ifr_hwaddr;
''', '''    offset = 0
    while offset < if_buffer_size:
        name = ifaces[offset : offset + 16].split(b"\\0", 1)[0]
        packed = ifaces[offset + 20 : offset + 24]
        offset += struct_size
        ip = socket.inet_ntoa(packed)
'''),
]
