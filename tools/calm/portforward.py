NAME = "dataplicity/portforward.py"
EDITS = [
("        self.read_buffer = []  # For data received before we connected\n", "        self._unsent = collections.deque()  # For data received before we connected\n"),
("import logging\nimport select\n", "import collections\nimport logging\nimport select\n"),
("            self.read_buffer.append(data)\n", "            self._unsent.append(data)\n"),
("""                    for chunk in self.read_buffer:
                        self.socket.sendall(chunk)
""", """                    while self._unsent:
                        self.socket.sendall(self._unsent.popleft())
"""),
("                    del self.read_buffer[:]\n", "                    self._unsent.clear()\n"),
("""    def _shutdown_read(self):
        \"\"\"Shutdown reading.\"\"\"
        with self._lock:
            if self.socket:
                try:
                    self.socket.shutdown(socket.SHUT_RD)
                except Exception:
                    pass

    def _shutdown_write(self):
        \"\"\"Shutdown writing.\"\"\"
        with self._lock:
            if self.socket:
                try:
                    self.socket.shutdown(socket.SHUT_WR)
                except Exception:
                    pass
""", """    def _shutdown(self, how):
        with self._lock:
            if self.socket:
                try:
                    self.socket.shutdown(how)
                except Exception:
                    pass

    def _shutdown_read(self):
        \"\"\"Shutdown reading.\"\"\"
        self._shutdown(socket.SHUT_RD)

    def _shutdown_write(self):
        \"\"\"Shutdown writing.\"\"\"
        self._shutdown(socket.SHUT_WR)
"""),
("""            if not self._connect():
                return

            poll.register(self.socket.fileno(), events)
""", """            connected = self._connect()
            if not connected:
                return

            sock = self.socket
            poll.register(sock, events)
"""),
("                            data = self.socket.recv(CHUNK_SIZE)\n", "                            data = sock.recv(CHUNK_SIZE)\n"),
("""        if port is not None:
            service = self.get_service_on_port(port or 80)
        elif service is not None:
            service = self.get_service(service)
        if service is None:
            return
        service.connect(limiter, m2m_port)
""", """        found = (
            self.get_service_on_port(port or 80)
            if port is not None
            else self.get_service(service)
        )
        if found is not None:
            found.connect(limiter, m2m_port)
"""),
("""                with self._lock:
                    connection = Connection(
                        limiter, self.close_event, channel, self.host_port
                    )
                connection.start()
""", """                Connection(limiter, self.close_event, channel, self.host_port).start()
"""),
]
