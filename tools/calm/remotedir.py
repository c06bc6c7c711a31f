NAME = "dataplicity/remote_directory.py"
EDITS = [
("""        try:
            size = self.add_upload(path.decode("utf-8"), upload_id.decode("utf-8"))
        except RemoteDirectoryError as error:
            # Known fail that we can report to the user
            client.send(
                PacketType.open_remote_file_result,
                upload_id=upload_id,
                size=-1,
                fail=1,
                fail_reason=str(error),
            )
        except Exception as error:
            client.send(
                PacketType.open_remote_file_result,
                upload_id=upload_id,
                size=-1,
                fail=1,
                fail_reason="open failed, see dataplicity.log",
            )
            log.exception("failed to add upload")
        else:
            client.send(PacketType.open_remote_file_result, upload_id, size, 0, "")
""", """        fail, size, reason = 1, -1, ""
        try:
            size = self.add_upload(path.decode("utf-8"), upload_id.decode("utf-8"))
            fail = 0
        except RemoteDirectoryError as error:
            # Known fail that we can report to the user
            reason = str(error)
        except Exception:
            reason = "open failed, see dataplicity.log"
            log.exception("failed to add upload")
        client.send(
            PacketType.open_remote_file_result,
            upload_id=upload_id,
            fail=fail,
            fail_reason=reason,
            size=size,
        )
"""),
("""            snapshot_path = os.path.join(dir_path, upload_id)
            return snapshot_path
""", """            return os.path.join(dir_path, upload_id)
"""),
("""            with open(snapshot_path, "rb") as snapshot_file:
                snapshot_file.seek(offset)
                data = snapshot_file.read(size)
                log.debug("read %i bytes from %s", len(data), snapshot_path)
""", """            snapshot_file = io.open(snapshot_path, "rb")
            try:
                snapshot_file.seek(offset, os.SEEK_SET)
                data = snapshot_file.read(size)
            finally:
                snapshot_file.close()
"""),
("import shutil\nimport os\n", "import io\nimport os\n"),
("""                log.exception("error writing download")
                client.send(
                    PacketType.write_remote_file_result,
                    id,
                    offset,
                    len(data),
                    device_path,
                    2,
                    str(error).encode("utf-8", "replace"),
                )
                try:
                    log.debug("removing %s", write_device_path)
                    os.remove(write_device_path)
                except:
                    log.exception("failed to remove %r", write_device_path)
                return
""", """                log.exception("error writing download")
                reason = str(error).encode("utf-8", "replace")
                self._discard(write_device_path)
                client.send(
                    PacketType.write_remote_file_result,
                    id,
                    offset,
                    len(data),
                    device_path,
                    2,
                    reason,
                )
                return
"""),
("""    def copy_download(self, device_path, path):
""", """    def _discard(self, path):
        try:
            os.unlink(path)
        except Exception:
            log.exception("failed to remove %r", path)

    def copy_download(self, device_path, path):
"""),
("""        tries = 0
        # Broken links count as existing, as they would be replaced
        while os.path.lexists(destination_path):
            tries += 1
            if tries > 100:
                raise TooManyCopies(
                    "Can't find unique filename for %s" % destination_path
                )
            destination_path = "%s/%s(%s)%s" % (dirname, basename, tries, ext)
""", """        # Broken links count as existing, as they would be replaced
        if os.path.lexists(destination_path):
            for number in range(1, 101):
                name = "%s(%i)%s" % (basename, number, ext)
                destination_path = dirname + "/" + name
                if not os.path.lexists(destination_path):
                    break
            else:
                raise TooManyCopies(
                    "Can't find unique filename for %s" % destination_path
                )
"""),
("""        if os.path.exists(snapshot_path):
            try:
                os.remove(snapshot_path)
            except Exception as error:
                log.warning("failed to remove %r; %r", snapshot_path, error)
""", """        if not os.path.exists(snapshot_path):
            return
        try:
            os.unlink(snapshot_path)
        except Exception as error:
            log.warning("failed to remove %r; %r", snapshot_path, error)
"""),
]
