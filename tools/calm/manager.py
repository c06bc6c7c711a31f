NAME = "dataplicity/m2mmanager.py"
EDITS = [
("""        action = data["action"]
        if action == "sync":
            self.client.sync()
        elif action == "open-terminal":
            port = data["port"]
            terminal_name = data["name"]
            size = data.get("size", None)
            self.open_terminal(terminal_name, port, size=size)
        elif action == "open-echo":
            port = data["port"]
            self.open_echo_service(port)
        elif action == "open-portforward":
            service = data["service"]
            route = data["route"]
            self.open_portforward(service, route)
        elif action == "open-portredirect":
            device_port = data["device_port"]
            m2m_port = data["m2m_port"]
            self.client.port_forward.redirect_port(self.services_limiter, m2m_port, device_port)
        elif action == "reboot-device":
            self.reboot()
        elif action == "read-file":
            self.open_file_service(data["port"], data["path"])
        elif action == "run-command":
            self.open_command_service(data["port"], data["command"])
        elif action == "scan-directory":
            self.client.directory_scanner.perform_scan()
        # Unrecognized instructions are ignored
""", """        handler = {
            "sync": self._on_sync,
            "open-terminal": self._on_open_terminal,
            "open-echo": lambda data: self.open_echo_service(data["port"]),
            "open-portforward": self._on_open_portforward,
            "open-portredirect": self._on_redirect,
            "reboot-device": lambda data: self.reboot(),
            "read-file": lambda data: self.open_file_service(data["port"], data["path"]),
            "run-command": lambda data: self.open_command_service(
                data["port"], data["command"]
            ),
            "scan-directory": lambda data: self.client.directory_scanner.perform_scan(),
        }.get(data["action"])
        # Unrecognized instructions are ignored
        if handler is not None:
            handler(data)

    def _on_sync(self, data):
        self.client.sync()

    def _on_open_terminal(self, data):
        name, port = data["name"], data["port"]
        self.open_terminal(name, port, size=data.get("size"))

    def _on_open_portforward(self, data):
        route = data["route"]
        self.open_portforward(data["service"], route)

    def _on_redirect(self, data):
        manager = self.client.port_forward
        manager.redirect_port(
            self.services_limiter, data["m2m_port"], data["device_port"]
        )
"""),
("""        self._prune_closed()
        log.debug("opening terminal %s", self.name)
""", """        log.debug("opening terminal %s", self.name)
        self._prune_closed()
"""),
("""        if identity and identity != self.notified_identity:
            log.info("m2m identity changed (%s)", identity.decode("utf-8", "replace"))
            self.notified_identity = self.client.set_m2m_identity(identity)
""", """        if not identity or identity == self._announced:
            return
        self._announced = self.client.set_m2m_identity(identity)
"""),
("        self.notified_identity = None\n", "        self._announced = None\n"),
]
