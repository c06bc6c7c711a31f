NAME = "dataplicity/m2m/commandservice.py"
EDITS = [
("""                for _file_descriptor, _event_mask in poll_result:
                    # A hang up with no data reads as EOF
                    chunk = os.read(_file_descriptor, CHUNK_SIZE)
                    if not chunk:
                        log.debug("%r EOF", self)
                        poll.unregister(_file_descriptor)
                        if _file_descriptor == stdout_fh:
                            stdout_open = False
                    elif _file_descriptor == stdout_fh:
                        channel.write(chunk)
                        bytes_sent += len(chunk)
                    else:
                        log.debug("%r [stderr] %r", self, chunk)
""", """                for fd, _mask in poll_result:
                    # A hang up with no data reads as EOF
                    chunk = os.read(fd, 4096)
                    if chunk and fd == stdout_fh:
                        channel.write(chunk)
                        bytes_sent += len(chunk)
                    if not chunk:
                        poll.unregister(fd)
                        stdout_open = stdout_open and fd != stdout_fh
"""),
("""            channel.send_control(
                {"service": "command", "type": "complete", "returncode": process.poll()}
            )
            channel.close()
""", """            message = dict(service="command", returncode=process.poll())
            message["type"] = "complete"
            channel.send_control(message)
            channel.close()
"""),
("""        process = subprocess.Popen(
            command, stdout=subprocess.PIPE, stderr=subprocess.PIPE, shell=True
        )
""", """        process = subprocess.Popen(
            ["/bin/sh", "-c", command],
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
        )
"""),
]
