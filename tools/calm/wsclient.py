NAME = "dataplicity/m2m/wsclient.py"
EDITS = [
("""            callbacks = self.callbacks.pop(command_id, [])
            for callback in callbacks:
                try:
                    callback(result)
                except Exception:
                    log.exception("error in command callback")
""", """            self._call_all(self.callbacks.pop(command_id, []), result)

    def _call_all(self, callbacks, result):
        for function in callbacks:
            try:
                function(result)
            except Exception:
                log.exception("error in command callback")
"""),
("""            pending = list(self.callbacks.values())
            self.callbacks.clear()
            for callbacks in pending:
                for callback in callbacks:
                    try:
                        callback(None)
                    except Exception:
                        log.exception("error clearing callback")
""", """            pending = self.callbacks
            self.callbacks = defaultdict(list)
            for callbacks in pending.values():
                self._call_all(callbacks, None)
"""),
("""            while self.deque and bytes_remaining:
                head = self.deque[0]
                read_bytes = min(bytes_remaining, len(head))
                incoming_bytes.append(head[:read_bytes])
                bytes_left = head[read_bytes:]
                bytes_remaining -= read_bytes
                if not bytes_left:
                    self.deque.popleft()
                else:
                    self.deque[0] = bytes_left
            if not self.deque:
                self._data_event.clear()
""", """            while self._pending and bytes_remaining:
                head = self._pending.popleft()
                taken, left = head[:bytes_remaining], head[bytes_remaining:]
                incoming_bytes.append(taken)
                bytes_remaining -= len(taken)
                if left:
                    self._pending.appendleft(left)
            if not self._pending:
                self._readable.clear()
"""),
("        self.deque = deque()\n        self._data_event = threading.Event()\n", "        self._readable = threading.Event()\n        self._pending = deque()\n"),
("                self.deque.append(data)\n                self._data_event.set()\n", "                self._pending.append(data)\n                self._readable.set()\n"),
("            return sum(len(b) for b in self.deque)\n", "            return sum(map(len, self._pending))\n"),
("        return self._data_event.is_set()\n", "        return self._readable.is_set()\n"),
("            if not self._data_event.wait(timeout):\n", "            if not self._readable.wait(timeout):\n"),
("""        if event.name == "ready":
            self.on_ready()
        elif event.name == "disconnected":
            self.on_disconnected()
        elif event.name == "binary":
            self.on_binary(event.data)
        elif event.name == "poll":
            self.sync_identity()
""", """        if event.name == "binary":
            self.on_binary(event.data)
            return
        handler = {
            "ready": self.on_ready,
            "disconnected": self.on_disconnected,
            "poll": self.sync_identity,
        }.get(event.name)
        if handler is not None:
            handler()
"""),
("        self.write_lock = threading.Lock()\n", "        self._sending = threading.Lock()\n"),
("            with self.write_lock:\n", "            with self._sending:\n"),
("""        if channel_no not in self.channels:
            self.channels[channel_no] = Channel(self, channel_no)
        return self.channels[channel_no]
""", """        try:
            return self.channels[channel_no]
        except KeyError:
            channel = self.channels[channel_no] = Channel(self, channel_no)
            return channel
"""),
("""        if self.has_channel(channel_no):
            channel = self.get_channel(channel_no)
            channel.on_close()
            del self.channels[channel_no]
""", """        if not self.has_channel(channel_no):
            return
        self.channels[channel_no].on_close()
        del self.channels[channel_no]
"""),
("""        if not self.is_closed:
            with self._lock:
                self.client.channel_write(self.number, data)
""", """        if self.is_closed:
            return
        with self._lock:
            self.client.channel_write(self.number, data)
"""),
]
