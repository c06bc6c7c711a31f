NAME = "dataplicity/m2m/remoteprocess.py"
EDITS = [
("""        while warnings:
            time.sleep(2)
""", """        while len(warnings) > 0:
            time.sleep(1)
"""),
("""            if pid:
                # The process has returned an exit code
                log.debug("process %s exited with code=%i", self, exit_code)
                break
            else:
                # Process is still running
                time_passed = time.time() - start_time
                if time_passed >= warnings[0]:
                    warnings.pop(0)
                    log.warning(
                        "process %s failed to exit after %.1f seconds",
                        self,
                        time_passed,
                    )
                if not sent_kill and time_passed >= kill_time:
                    sent_kill = True
                    log.debug("sending SIGKILL to process %s", self)
                    os.kill(self.pid, signal.SIGKILL)
""", """            if pid != 0:
                # The process has returned an exit code
                log.debug("process %s exited with code=%i", self, exit_code)
                break
            # Process is still running
            time_passed = time.time() - start_time
            if time_passed >= kill_time and not sent_kill:
                os.kill(self.pid, signal.SIGKILL)
                sent_kill = True
            if time_passed >= warnings[0]:
                del warnings[0]
                log.warning("process %s failed to exit after %.1fs", self, time_passed)
"""),
("""        try:
            control = json.loads(data)
        except Exception:
            log.exception("error decoding control")
            return
        control_type = control.get("type", None)
        if control_type == "window_resize":
            size = control["size"]
            log.debug("resize terminal to {} X {}".format(*size))
            self.resize_terminal(size)
        else:
            log.warning("unknown control packet {}".format(control_type))
""", """        try:
            control = json.loads(data)
        except Exception:
            log.exception("error decoding control")
        else:
            self._on_control(control.get("type"), control)

    def _on_control(self, kind, control):
        if kind != "window_resize":
            log.warning("unknown control packet {}".format(kind))
            return
        columns, lines = control["size"]
        self.resize_terminal([columns, lines])
"""),
("""            for data in iter(self._input.get, None):
                self.stdin_read(data)
""", """            while True:
                data = self._input.get()
                if data is None:
                    break
                self.stdin_read(data)
"""),
]
