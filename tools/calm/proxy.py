NAME = "dataplicity/m2m/proxy.py"
EDITS = [
("""        poll = select.poll()
        poll.register(master_fd, select.POLLOUT)
        while data:
            try:
                n = os.write(master_fd, data)
            except OSError as error:
                if error.errno != errno.EAGAIN:
                    raise
                # The process isn't reading, wait until it does or hangs up
                for _file_descriptor, event_mask in poll.poll(1000):
                    if event_mask & (select.POLLERR | select.POLLHUP):
                        raise
            else:
                data = data[n:]
""", """        poll = select.poll()
        poll.register(master_fd, select.POLLOUT)
        view = memoryview(data)
        while len(view):
            try:
                view = view[os.write(master_fd, view) :]
            except OSError as error:
                if error.errno != errno.EAGAIN:
                    raise
                # The process isn't reading, wait until it does or hangs up
                for _file_descriptor, event_mask in poll.poll(500):
                    if event_mask & (select.POLLHUP | select.POLLERR):
                        raise
"""),
("""        if size is None:
            size = [80, 24]
        self.size = size
        self.master_fd = None
        self.pid = None
        self._fd_lock""", """        self.pid = None
        self.master_fd = None
        self.size = [80, 24] if size is None else size
        self._fd_lock"""),
("""                if event_mask & readable_events:
                    data = os.read(master_fd, 1024 * 1024)
                    if not data:
                        reading = False
                        break
                    self.master_read(data)
                elif event_mask & error_events:
                    # Hang up, and everything has been read
                    reading = False
                    break
""", """                data = b""
                if event_mask & readable_events:
                    data = os.read(master_fd, 65536)
                if data:
                    self.master_read(data)
                else:
                    # Hang up, and everything has been read
                    reading = False
                    break
"""),
("                self.master_fd = None\n                os.close(master_fd)\n", "                os.close(master_fd)\n                self.master_fd = None\n"),
]
