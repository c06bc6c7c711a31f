NAME = "dataplicity/directory_scanner.py"
EDITS = [
("""        temp_path = file_path + "~"
        if os.path.lexists(temp_path):
            os.remove(temp_path)
        # Other users can write to this directory, and must not read the scan
        flags = os.O_WRONLY | os.O_CREAT | os.O_EXCL
        with os.fdopen(os.open(temp_path, flags, 0o600), "wb") as scan_file:
            scan_file.write(scan_json)
        os.rename(temp_path, file_path)""", """        handle, temp_path = tempfile.mkstemp(prefix=".scan-", dir=tempfile.gettempdir())
        try:
            with os.fdopen(handle, "wb") as scan_file:
                scan_file.write(scan_json)
            os.rename(temp_path, file_path)
        except Exception:
            os.unlink(temp_path)
            raise"""),
("""            else:
                try:
                    self.write_scan(directory)
                except Exception:
                    log.exception("failed to write_scan")
                    raise
                else:
                    if on_success is not None:
                        try:
                            on_success()
                        except Exception:
                            log.exception("error in on_success")
""", """            try:
                self.write_scan(directory)
            except Exception:
                log.exception("failed to write_scan")
                raise
            if on_success is None:
                return
            try:
                on_success()
            except Exception:
                log.exception("error in on_success")
"""),
("        self._lock = Lock()\n", "        self._scanning = Lock()\n"),
("        if self._lock.locked():\n", "        if self._scanning.locked():\n"),
("        with self._lock:\n", "        with self._scanning:\n"),
]
