NAME = "dataplicity/client.py"
EDITS = [
("""            with self.remote.batch() as batch:
                batch.call_with_id(
                    "authenticate_result",
                    "device.check_auth",
                    device_class="tuxtunnel",
                    serial=self.serial,
                    auth_token=self.auth_token,
                )
                batch.call_with_id(
                    "set_disk_space_result",
                    "device.set_disk_space",
                    disk_capacity=disk_space.total,
                    disk_used=disk_space.used,
                )
""", """            with self.remote.batch() as batch:
                self._authenticate(batch)
                figures = {
                    "disk_used": disk_space.used,
                    "disk_capacity": disk_space.total,
                }
                batch.call_with_id(
                    "set_disk_space_result", "device.set_disk_space", **figures
                )

    def _authenticate(self, batch, **extra):
        batch.call_with_id(
            "authenticate_result",
            "device.check_auth",
            auth_token=self.auth_token,
            serial=self.serial,
            device_class="tuxtunnel",
            **extra
        )
"""),
("""                with self.remote.batch() as batch:
                    batch.call_with_id(
                        "authenticate_result",
                        "device.check_auth",
                        device_class="tuxtunnel",
                        serial=self.serial,
                        auth_token=self.auth_token,
                    )
                    batch.call_with_id(
                        "set_machine_defined_tags_result",
""", """                with self.remote.batch() as batch:
                    self._authenticate(batch)
                    batch.call_with_id(
                        "set_machine_defined_tags_result",
"""),
("""                    batch.call_with_id(
                        "authenticate_result",
                        "device.check_auth",
                        device_class="tuxtunnel",
                        serial=self.serial,
                        auth_token=self.auth_token,
                        sync_id=sync_id,
                    )
                    self._sync_meta(batch)
""", """                    self._authenticate(batch, sync_id=sync_id)
                    self._sync_meta(batch)
"""),
("        self._sent_meta = False\n", "        self._meta_accepted = False\n"),
("            if not self._sent_meta:\n", "            if not self._meta_accepted:\n"),
("        if self._sent_meta:\n", "        if self._meta_accepted:\n"),
("            self._sent_meta = True\n", "            self._meta_accepted = True\n"),
("        self._tag_list = None\n", "        self._accepted_tags = None\n"),
("            if tag_list != self._tag_list:\n", "            if not (tag_list == self._accepted_tags):\n"),
("            self._tag_list = tag_list\n", "            self._accepted_tags = tag_list\n"),
("""            self.poll()
            while not self.exit_event.wait(self.poll_rate_seconds):
                self.poll()
""", """            while True:
                self.poll()
                if self.exit_event.wait(self.poll_rate_seconds):
                    break
"""),
("""        now = time.time()

        if now >= self.next_disk_poll_time:
            self.next_disk_poll_time = now + self.disk_poll_rate_seconds
            disk_space""", """        current = time.time()

        if not current < self.next_disk_poll_time:
            self.next_disk_poll_time = self.disk_poll_rate_seconds + current
            disk_space"""),
]
