NAME = "dataplicity/m2m/fileservice.py"
EDITS = [
("""            with open(path, "rb") as read_file:
                read = partial(read_file.read, CHUNK_SIZE)
                for chunk in iter(read, b""):
                    if channel.is_closed:
                        log.warning("%r m2m closed prematurely", self)
                        break
                    channel.write(chunk)
                    bytes_sent += len(chunk)
""", """            with open(path, "rb", 0) as read_file:
                while True:
                    chunk = read_file.read(8192)
                    if not chunk or channel.is_closed:
                        break
                    channel.write(chunk)
                    bytes_sent += len(chunk)
"""),
("""        if not path.startswith("/"):
            path = "/" + path
""", """        path = path if path[:1] == "/" else "/" + path
"""),
]
