From ce6b59ab13f3d32fc56833e27aaf4ec714a82b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:14 +0000
Subject: [PATCH 01/48] fix: reject truncated and malformed bencode with
 DecodeError

A length without a colon made the decoder loop forever on end of data, a
truncated string was returned short, a negative length read the rest of
the message, and other malformed input raised assorted exceptions or
yielded None.
---
 dataplicity/m2m/bencode.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/dataplicity/m2m/bencode.py b/dataplicity/m2m/bencode.py
index 539b031..34b87b5 100644
--- a/dataplicity/m2m/bencode.py
+++ b/dataplicity/m2m/bencode.py
@@ -99,7 +99,14 @@ def encode(obj):
 def decode(data):
     """Decode Bencode, return an object."""
     assert isinstance(data, bytes), "decode takes bytes"
-    return _decode(io.BytesIO(data).read)
+    try:
+        value = _decode(io.BytesIO(data).read)
+    except RuntimeError:
+        # Recursion limit exceeded
+        raise DecodeError("data is nested too deeply")
+    if value is None:
+        raise DecodeError("unexpected end marker")
+    return value
 
 
 def _decode(read):
@@ -119,7 +126,10 @@ def _decode(read):
                     raise DecodeError("illegal digit in size")
                 break
             number_bytes += c
-        number = int(number_bytes)
+        try:
+            number = int(number_bytes)
+        except ValueError:
+            raise DecodeError("illegal integer")
         return number
     elif obj_type == b"l":
         l = []
@@ -135,15 +145,31 @@ def _decode(read):
             k = _decode(read)
             if k is None:
                 break
+            if not isinstance(k, bytes):
+                raise DecodeError("dict keys must be bytes")
             v = _decode(read)
+            if v is None:
+                raise DecodeError("missing value in dict")
             kv.append((k, v))
         return dict(kv)
     else:
+        if not obj_type.isdigit():
+            raise DecodeError("illegal digit in size")
         size_bytes = obj_type
         while 1:
             c = read(1)
             if c == b":":
                 break
+            if c == b"":
+                raise DecodeError("unexpected end of data")
+            if not c.isdigit():
+                raise DecodeError("illegal digit in size")
             size_bytes += c
         size = int(size_bytes)
-        return read(size)
+        try:
+            value = read(size)
+        except OverflowError:
+            raise DecodeError("unexpected end of data")
+        if len(value) != size:
+            raise DecodeError("unexpected end of data")
+        return value
-- 
2.43.0


From d39ebae827b62276820d9abdf2e109b216e7a677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:14 +0000
Subject: [PATCH 02/48] fix: refuse an empty list as a packet with
 PacketFormatError

---
 dataplicity/m2m/packetbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataplicity/m2m/packetbase.py b/dataplicity/m2m/packetbase.py
index 0afe202..2785c68 100644
--- a/dataplicity/m2m/packetbase.py
+++ b/dataplicity/m2m/packetbase.py
@@ -95,6 +95,8 @@ class PacketBaseType(object):
 
         if not isinstance(packet_data, list):
             raise PacketFormatError("packet must be a list")
+        if not packet_data:
+            raise PacketFormatError("packet must have a type")
         packet_type = packet_data[0]
         if not isinstance(packet_type, int_types):
             raise PacketFormatError("first value must be an integer")
-- 
2.43.0


From 1e200a8367b245608c9eb27bb9eb513e0f7289dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:06 +0000
Subject: [PATCH 03/48] fix: serialise websocket sends from concurrent threads

---
 dataplicity/m2m/wsclient.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index db8ac40..50ed521 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -303,7 +303,10 @@ class WSClient(threading.Thread):
     def send_bytes(self, packet_bytes):
         """Send bytes over the websocket."""
         try:
-            self.websocket.send_binary(packet_bytes)
+            # The websocket compresses before it takes its own lock, so
+            # frames must be prepared and sent by a single thread at a time
+            with self.write_lock:
+                self.websocket.send_binary(packet_bytes)
         except WebSocketError:
             return False
         else:
-- 
2.43.0


From fdf10f18c09b118544a8ca6145ab282ac1ddc7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:06 +0000
Subject: [PATCH 04/48] fix: forget command callbacks once they have been
 called

---
 dataplicity/m2m/wsclient.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 50ed521..f165c41 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -216,22 +216,24 @@ class WSClient(threading.Thread):
         return self.channels.keys()
 
     def add_callback(self, command_id, callback):
-        self.callbacks[command_id].append(callback)
+        with self.callback_lock:
+            self.callbacks[command_id].append(callback)
 
     def callback(self, command_id, result):
         with self.callback_lock:
-            if command_id in self.callbacks:
-                for callback in self.callbacks[command_id]:
-                    try:
-                        callback(result)
-                    except Exception:
-                        log.exception("error in command callback")
-                del self.callbacks[command_id]
+            callbacks = self.callbacks.pop(command_id, [])
+            for callback in callbacks:
+                try:
+                    callback(result)
+                except Exception:
+                    log.exception("error in command callback")
 
     def clear_callbacks(self):
         """Clear all callbacks, because they may be blocking."""
         with self.callback_lock:
-            for command_id, callbacks in self.callbacks.items():
+            pending = list(self.callbacks.values())
+            self.callbacks.clear()
+            for callbacks in pending:
                 for callback in callbacks:
                     try:
                         callback(None)
-- 
2.43.0


From e4406cdd8b59577c147586de35d594ab5e95d44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:06 +0000
Subject: [PATCH 05/48] fix: forget channels when the connection is lost

---
 dataplicity/m2m/wsclient.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index f165c41..db38244 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -255,7 +255,11 @@ class WSClient(threading.Thread):
 
     def hard_close_channels(self):
         """Called when all the channels have been abruptly closed."""
-        for channel in self.channels.values():
+        # Channels don't survive the connection, so forget them. Numbers may
+        # be re-used when we reconnect.
+        channels = list(self.channels.values())
+        self.channels.clear()
+        for channel in channels:
             channel.on_close()
 
     def run(self):
-- 
2.43.0


From 8041733b69a3909b469ad116c060c80ac45dbb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:50 +0000
Subject: [PATCH 06/48] fix: complete remote commands when their output ends
 with a hang up

---
 dataplicity/m2m/commandservice.py | 45 ++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/dataplicity/m2m/commandservice.py b/dataplicity/m2m/commandservice.py
index b25badd..fbb2421 100644
--- a/dataplicity/m2m/commandservice.py
+++ b/dataplicity/m2m/commandservice.py
@@ -80,32 +80,37 @@ class CommandService(threading.Thread):
         poll.register(stdout_fh, events)
         poll.register(stderr_fh, events)
         try:
-            more_data = True
-            while more_data:
+            running = True
+            stdout_open = True
+            while running:
+                if not stdout_open and process.poll() is not None:
+                    # Sent all the output, and we have a return code
+                    log.debug("%r complete", self)
+                    break
                 try:
-                    poll_result = poll.poll(0.5 * 1000)
+                    # Without stdout there may be nothing to wake us when the
+                    # process exits
+                    poll_result = poll.poll(500 if stdout_open else 20)
                 except Exception as error:
                     log.warning("error in commandservice.py poll.poll; %s", error)
                     break
 
-                for _file_descriptor, event_mask in poll_result:
-                    if event_mask & readable_events:
+                for _file_descriptor, _event_mask in poll_result:
+                    # A hang up with no data reads as EOF
+                    chunk = os.read(_file_descriptor, CHUNK_SIZE)
+                    if not chunk:
+                        log.debug("%r EOF", self)
+                        poll.unregister(_file_descriptor)
                         if _file_descriptor == stdout_fh:
-                            chunk = os.read(stdout_fh, CHUNK_SIZE)
-                            if not chunk:
-                                more_data = False
-                                log.debug("%r EOF", self)
-                                break
-                            channel.write(chunk)
-                            bytes_sent += len(chunk)
-                        else:
-                            chunk = os.read(stderr_fh, CHUNK_SIZE)
-                            log.debug("%r [stderr] %r", self, chunk)
-                    if event_mask & error_events:
-                        break
+                            stdout_open = False
+                    elif _file_descriptor == stdout_fh:
+                        channel.write(chunk)
+                        bytes_sent += len(chunk)
+                    else:
+                        log.debug("%r [stderr] %r", self, chunk)
                 if channel.is_closed:
                     log.debug("%r channel closed", self)
-                    break
+                    running = False
 
         except WebSocketError as websocket_error:
             log.warning("%r websocket error (%s)", self, websocket_error)
@@ -125,3 +130,7 @@ class CommandService(threading.Thread):
                     process.kill()
             except OSError:
                 log.exception("%r failed to kill", self)
+            # Reap the process, and don't hold on to the pipes
+            process.wait()
+            process.stdout.close()
+            process.stderr.close()
-- 
2.43.0


From 8eaec0b9c0f688e10a5f7debde9b5fb0f4f2a5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:50 +0000
Subject: [PATCH 07/48] fix: close the channel of a remote command that could
 not be started

---
 dataplicity/m2m/commandservice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataplicity/m2m/commandservice.py b/dataplicity/m2m/commandservice.py
index fbb2421..0a8d3b2 100644
--- a/dataplicity/m2m/commandservice.py
+++ b/dataplicity/m2m/commandservice.py
@@ -60,6 +60,7 @@ class CommandService(threading.Thread):
             except Exception:
                 log.exception("error running %r", self)
                 self.send_error(channel, "error", "error running command")
+                channel.close()
         finally:
             self.limiter.decrement()
 
-- 
2.43.0


From 3961cb3a70bf586828344e78d348dbf16a571e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:38 +0000
Subject: [PATCH 08/48] fix: end a port forward without affecting other
 connections

---
 dataplicity/portforward.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index fbb6996..dc94701 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -73,7 +73,8 @@ class Connection(threading.Thread):
 
             log.debug("entered recv loop")
             # Read all the data we can and write it to the channel
-            while not self.close_event.is_set():
+            reading = True
+            while reading and not self.close_event.is_set():
                 # Block for a period of time until the socket becomes readable,
                 # or there is an error
                 try:
@@ -91,18 +92,19 @@ class Connection(threading.Thread):
                             data = self.socket.recv(CHUNK_SIZE)
                         except Exception:
                             log.exception("error in recv")
-                            break
+                            reading = False
                         else:
                             if data:
                                 self.channel.write(data)
                                 bytes_written += len(data)
                             else:
                                 # No data means the socket has been closed
-                                break
-                    if event_mask & error_events:
+                                reading = False
+                    elif event_mask & error_events:
                         # Socket has been closed in another thread, possibly due to
-                        # m2m channel closing
-                        self.close_event.set()
+                        # m2m channel closing. The close event is shared by all
+                        # connections, so only stop this one.
+                        reading = False
         finally:
 
             speed = bytes_written / 1024.0 / (time() - self._start_time)
-- 
2.43.0


From a09caf5ae1d282bac92e278b93ae76eaba05fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:38 +0000
Subject: [PATCH 09/48] fix: end a port forward when its data can't be sent

---
 dataplicity/portforward.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index dc94701..d5ceb83 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -195,6 +195,12 @@ class Connection(threading.Thread):
                 try:
                     for chunk in self.read_buffer:
                         self.socket.sendall(chunk)
+                except Exception as error:
+                    # Anything sent after this would follow a gap in the data,
+                    # so this is the end of the connection
+                    log.warning("unable to send to %r; %s", self.host_port, error)
+                    self._shutdown_write()
+                    self._shutdown_read()
                 finally:
                     del self.read_buffer[:]
 
-- 
2.43.0


From 3b06914dad6bd17a27a4791de3d2144d623c0170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:38 +0000
Subject: [PATCH 10/48] fix: shut down a port forward that was closed while
 connecting

---
 dataplicity/portforward.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index d5ceb83..57b31c6 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -179,8 +179,12 @@ class Connection(threading.Thread):
             return False
         else:
             log.debug("connected to %s:%d", *self.host_port)
-            self.socket = _socket
-            self._flush_buffer()
+            with self._lock:
+                self.socket = _socket
+                self._flush_buffer()
+                if self.channel.is_closed:
+                    # Channel was closed before there was a socket to shut down
+                    self._shutdown_write()
             return True
 
     def on_channel_data(self, data):
-- 
2.43.0


From 248b31be591225e93d621e7a5ffc9156291b0ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:50 +0000
Subject: [PATCH 11/48] fix: send all of a terminal's output after it hangs up

---
 dataplicity/m2m/proxy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/proxy.py b/dataplicity/m2m/proxy.py
index dc6646f..99ca3c4 100644
--- a/dataplicity/m2m/proxy.py
+++ b/dataplicity/m2m/proxy.py
@@ -147,8 +147,12 @@ class Interceptor(object):
             for _file_descriptor, event_mask in poll_result:
                 if event_mask & readable_events:
                     data = os.read(master_fd, 1024 * 1024)
+                    if not data:
+                        reading = False
+                        break
                     self.master_read(data)
-                if event_mask & error_events:
+                elif event_mask & error_events:
+                    # Hang up, and everything has been read
                     reading = False
                     break
 
-- 
2.43.0


From e79625ee7449f3c6f0fa1700069328d775734da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:50 +0000
Subject: [PATCH 12/48] fix: hang up a terminal that was closed before its
 process started

---
 dataplicity/m2m/remoteprocess.py | 40 +++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/dataplicity/m2m/remoteprocess.py b/dataplicity/m2m/remoteprocess.py
index f35e02a..4ebb57c 100644
--- a/dataplicity/m2m/remoteprocess.py
+++ b/dataplicity/m2m/remoteprocess.py
@@ -9,7 +9,7 @@ import os
 import signal
 import shlex
 import time
-from threading import Thread
+from threading import Lock, Thread
 
 from . import proxy
 
@@ -78,6 +78,8 @@ class RemoteProcess(proxy.Interceptor):
         self.channel = channel
         self.size = size
         self._closed = False
+        self._hung_up = False
+        self._close_lock = Lock()
         self.channel.set_callbacks(
             on_data=self.on_data, on_close=self.on_close, on_control=self.on_control
         )
@@ -95,10 +97,18 @@ class RemoteProcess(proxy.Interceptor):
 
     def run(self):
         try:
-            self.spawn(shlex.split(self.command))
+            if not self.is_closed:
+                self.spawn(shlex.split(self.command))
         finally:
             self.limiter.decrement()
 
+    def _init_fd(self):
+        with self._close_lock:
+            if self._closed:
+                # Closed before there was a process to hang up
+                self._hang_up()
+        super(RemoteProcess, self)._init_fd()
+
     def on_data(self, data):
         try:
             self.stdin_read(data)
@@ -130,15 +140,23 @@ class RemoteProcess(proxy.Interceptor):
         super(RemoteProcess, self).write_master(data)
 
     def close(self):
-        if not self._closed and self.pid is not None:
-            log.debug("sending SIGHUP to %r", self)
-            os.kill(self.pid, signal.SIGHUP)
-            try:
-                wait_thread = PidWaitThread(self.command, self.pid)
-                wait_thread.start()
-            except Exception as error:
-                log.warning("pid wait thread failed to launch; %s", error)
-        self._closed = True
+        with self._close_lock:
+            self._closed = True
+            if self.pid is not None:
+                self._hang_up()
+
+    def _hang_up(self):
+        """Hang up and wait for the process, the first time this is called."""
+        if self._hung_up:
+            return
+        self._hung_up = True
+        log.debug("sending SIGHUP to %r", self)
+        os.kill(self.pid, signal.SIGHUP)
+        try:
+            wait_thread = PidWaitThread(self.command, self.pid)
+            wait_thread.start()
+        except Exception as error:
+            log.warning("pid wait thread failed to launch; %s", error)
 
     def __enter__(self):
         return self
-- 
2.43.0


From f8f53525921f98c93a041cc604b1f237863fde68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:50 +0000
Subject: [PATCH 13/48] fix: don't lose a terminal because of a bad window size

---
 dataplicity/m2m/proxy.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/dataplicity/m2m/proxy.py b/dataplicity/m2m/proxy.py
index 99ca3c4..ed5d520 100644
--- a/dataplicity/m2m/proxy.py
+++ b/dataplicity/m2m/proxy.py
@@ -26,6 +26,7 @@ import pty
 import select
 import sys
 import termios
+import threading
 import pwd
 import grp
 
@@ -53,6 +54,7 @@ class Interceptor(object):
         self.size = size
         self.master_fd = None
         self.pid = None
+        self._fd_lock = threading.Lock()
 
     def spawn(self, argv=None):
         """
@@ -91,14 +93,19 @@ class Interceptor(object):
             # Previous command replaces the process
             return
 
-        self._init_fd()
+        try:
+            self._init_fd()
+        except Exception:
+            # Most likely a bad size, but the process is running
+            log.exception("failed to set up pty")
         try:
             self._copy()
         except (IOError, OSError):
             pass
 
-        os.close(master_fd)
-        self.master_fd = None
+        with self._fd_lock:
+            self.master_fd = None
+            os.close(master_fd)
 
     def _init_fd(self):
         """
@@ -116,13 +123,20 @@ class Interceptor(object):
         """
         Sets the window size of the child pty based on the window size of our own controlling terminal.
         """
-        assert self.master_fd is not None
-
         # Get the terminal size of the real terminal, set it on the pseudoterminal.
-        rows, cols = self.size
-        buf = array.array("h", [cols, rows, 0, 0])
-        # fcntl.ioctl(pty.STDOUT_FILENO, termios.TIOCGWINSZ, buf, True)
-        fcntl.ioctl(self.master_fd, termios.TIOCSWINSZ, buf)
+        with self._fd_lock:
+            buf = self._make_winsize(self.size)
+            # fcntl.ioctl(pty.STDOUT_FILENO, termios.TIOCGWINSZ, buf, True)
+            if self.master_fd is not None:
+                fcntl.ioctl(self.master_fd, termios.TIOCSWINSZ, buf)
+
+    @classmethod
+    def _make_winsize(cls, size):
+        """
+        Makes the winsize structure for [COLUMNS, LINES], raises an exception for a bad size.
+        """
+        rows, cols = size
+        return array.array("h", [cols, rows, 0, 0])
 
     def _copy(self):
         """
@@ -158,9 +172,9 @@ class Interceptor(object):
 
     def resize_terminal(self, size):
         """Resize terminal to [COLUMNS, LINES]"""
+        self._make_winsize(size)
         self.size = size
-        if self.master_fd is not None:
-            self._set_pty_size()
+        self._set_pty_size()
 
     def write_stdout(self, data):
         """
-- 
2.43.0


From c6c8f4b417f06ce774c08a2b39dd60e7d9a559e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:50 +0000
Subject: [PATCH 14/48] fix: queue terminal input rather than fail or block

---
 dataplicity/m2m/remoteprocess.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/dataplicity/m2m/remoteprocess.py b/dataplicity/m2m/remoteprocess.py
index 4ebb57c..4a58d12 100644
--- a/dataplicity/m2m/remoteprocess.py
+++ b/dataplicity/m2m/remoteprocess.py
@@ -12,6 +12,7 @@ import time
 from threading import Lock, Thread
 
 from . import proxy
+from ..compat import queue
 
 log = logging.getLogger("m2m")
 
@@ -80,6 +81,8 @@ class RemoteProcess(proxy.Interceptor):
         self._closed = False
         self._hung_up = False
         self._close_lock = Lock()
+        self._ended = False
+        self._input = queue.Queue()  # Data waiting to be read by the process
         self.channel.set_callbacks(
             on_data=self.on_data, on_close=self.on_close, on_control=self.on_control
         )
@@ -100,6 +103,7 @@ class RemoteProcess(proxy.Interceptor):
             if not self.is_closed:
                 self.spawn(shlex.split(self.command))
         finally:
+            self._ended = True
             self.limiter.decrement()
 
     def _init_fd(self):
@@ -109,12 +113,31 @@ class RemoteProcess(proxy.Interceptor):
                 self._hang_up()
         super(RemoteProcess, self)._init_fd()
 
-    def on_data(self, data):
+    def _copy(self):
+        """Write input in another thread, because the process may not be reading it."""
+        input_thread = Thread(target=self._write_input)
+        input_thread.daemon = True
+        input_thread.start()
+        try:
+            super(RemoteProcess, self)._copy()
+        finally:
+            self._input.put(None)
+            input_thread.join()
+
+    def _write_input(self):
+        """Write queued input to the process."""
         try:
-            self.stdin_read(data)
+            for data in iter(self._input.get, None):
+                self.stdin_read(data)
         except Exception:
             self.channel.close()
 
+    def on_data(self, data):
+        if self._ended:
+            self.channel.close()
+        else:
+            self._input.put(data)
+
     def on_control(self, data):
         try:
             control = json.loads(data)
-- 
2.43.0


From a3f72268217f80eef31dd251b89274f6043e8ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:20 +0000
Subject: [PATCH 15/48] fix: never run a terminal with another user or group,
 or as a copy of the agent

---
 dataplicity/m2m/proxy.py | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/dataplicity/m2m/proxy.py b/dataplicity/m2m/proxy.py
index ed5d520..19fc784 100644
--- a/dataplicity/m2m/proxy.py
+++ b/dataplicity/m2m/proxy.py
@@ -67,31 +67,30 @@ class Interceptor(object):
         self.master_fd = master_fd
         self.pid = pid
         if pid == pty.CHILD:
-            if self.user is not None:
-                try:
-                    uid = pwd.getpwnam(self.user).pw_uid
-                except KeyError:
-                    log.error("No such user: %s", self.user)
-                else:
-                    os.setuid(uid)
-                    log.debug(
-                        "switched user for remote process to %s(%s)", self.user, uid
-                    )
-            if self.group is not None:
-                try:
+            try:
+                # Switch group first, as we may not have permission to once we
+                # have switched user. Any failure means the command isn't run.
+                if self.group is not None:
                     gid = grp.getgrnam(self.group).gr_gid
-                except KeyError:
-                    log.error("No such group: %s", self.group)
-                else:
                     os.setgid(gid)
                     log.debug(
                         "switched group for remote process to %s(%s)", self.group, gid
                     )
-            if not argv:
-                argv = [os.environ["SHELL"]]
-            os.execlp(argv[0], *argv)
-            # Previous command replaces the process
-            return
+                if self.user is not None:
+                    uid = pwd.getpwnam(self.user).pw_uid
+                    os.setuid(uid)
+                    log.debug(
+                        "switched user for remote process to %s(%s)", self.user, uid
+                    )
+                if not argv:
+                    argv = [os.environ["SHELL"]]
+                os.execlp(argv[0], *argv)
+                # Previous command replaces the process
+            except Exception as error:
+                log.error("unable to run remote process; %s", error)
+            finally:
+                # Never let this copy of the agent return to the caller
+                os._exit(1)
 
         try:
             self._init_fd()
-- 
2.43.0


From 139c27e7bc54c68fc57cd5248ec7ea5ded283713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:32 +0000
Subject: [PATCH 16/48] fix: refuse remote file ids and paths that lead out of
 their directories

---
 dataplicity/remote_directory.py | 34 ++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index 964e862..171115c 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -58,6 +58,19 @@ def validate_path(path):
     return ".." not in path.split(os.sep)
 
 
+def validate_filename(name):
+    # type: (Text) -> bool
+    """Check a name (sent by the server) refers to a file directly within a directory.
+
+    Args:
+        name (Text): A file name.
+
+    Returns:
+        bool: True if the name is valid, otherwise False
+    """
+    return name not in ("", ".", "..") and os.sep not in name and "\0" not in name
+
+
 class RemoteDirectory(object):
     """Manages remote directory."""
 
@@ -90,6 +103,8 @@ class RemoteDirectory(object):
         Returns:
             str: A path to the snapshot file.
         """
+        if not validate_filename(upload_id):
+            raise IllegalPath("Upload ID %r is illegal" % upload_id)
         try:
             temp_path = self.temp_path
             dir_path = os.path.join(temp_path, "dataplicity_remote")
@@ -102,6 +117,12 @@ class RemoteDirectory(object):
             log.warning("unable to get snapshot path; %r", error)
             raise RemoteDirectoryError("Failed to get snapshot path")
 
+    @property
+    def downloads_path(self):
+        # type: () -> Text
+        """Path to a directory to store downloads, until they are complete."""
+        return os.path.join(self.temp_path, "dataplicity_remote_downloads")
+
     def add_download(self, id):
         # type: (Text) -> Text
         """Add an upload.
@@ -113,8 +134,9 @@ class RemoteDirectory(object):
             [type]: [description]
         """
 
-        temp_path = self.temp_path
-        dir_path = os.path.join(temp_path, "dataplicity_remote_downloads")
+        if not validate_filename(id):
+            raise IllegalPath("Download ID %r is illegal" % id)
+        dir_path = self.downloads_path
         if not os.path.isdir(dir_path):
             os.mkdir(dir_path)
             log.debug("%r created %s", self, dir_path)
@@ -304,11 +326,15 @@ class RemoteDirectory(object):
     def on_write_remote_file(self, client, id, path, device_path, offset, data, final):
         # type: (WSClient, bytes, bytes, bytes, int, bytes, int) -> None
         """Write data from server to temporary file."""
-        write_device_path = device_path.decode("utf-8")
         try:
+            write_device_path = device_path.decode("utf-8")
             # If we haven't set a device_path allocate a temp location
             if not write_device_path:
                 write_device_path = self.add_download(id.decode("utf-8"))
+            else:
+                dir_path, filename = os.path.split(write_device_path)
+                if dir_path != self.downloads_path or not validate_filename(filename):
+                    raise IllegalPath("Path %s is illegal" % write_device_path)
         except Exception as error:
             log.exception("error adding download")
             # Couldn't create temporary location, tell server
@@ -382,6 +408,8 @@ class RemoteDirectory(object):
         # type (Text, Text) -> None
         """Copy a download in to the remote directory"""
 
+        if not validate_path(path.decode("utf-8")):
+            raise IllegalPath("Path %r is illegal" % path)
         destination_path = os.path.join(self.path, path.decode("utf-8").lstrip("/"))
         dirname, filename = os.path.split(destination_path)
         if not os.path.isdir(dirname):
-- 
2.43.0


From 3b9002d49ec05fcb431978730a0a9068d627157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:32 +0000
Subject: [PATCH 17/48] fix: store downloads when the folder is gone, and don't
 replace broken links

---
 dataplicity/remote_directory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index 171115c..a39b3a7 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -414,6 +414,7 @@ class RemoteDirectory(object):
         dirname, filename = os.path.split(destination_path)
         if not os.path.isdir(dirname):
             dirname = self.path
+            destination_path = os.path.join(dirname, filename)
 
         basename, ext = os.path.splitext(filename)
 
@@ -421,7 +422,8 @@ class RemoteDirectory(object):
         # N starts at 1 and will increase until it finds a free filename
 
         tries = 0
-        while os.path.exists(destination_path):
+        # Broken links count as existing, as they would be replaced
+        while os.path.lexists(destination_path):
             tries += 1
             if tries > 100:
                 raise TooManyCopies(
-- 
2.43.0


From da20104a7284cde51a17a5e0737b04eb30111688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:02 +0000
Subject: [PATCH 18/48] fix: publish a complete scan file in a single step

---
 dataplicity/directory_scanner.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataplicity/directory_scanner.py b/dataplicity/directory_scanner.py
index 04282b9..9928dfa 100644
--- a/dataplicity/directory_scanner.py
+++ b/dataplicity/directory_scanner.py
@@ -2,6 +2,7 @@ from __future__ import print_function, unicode_literals
 
 import json
 import logging
+import os
 import os.path
 import tempfile
 from threading import Lock, Thread
@@ -79,5 +80,8 @@ class DirectoryScanner(object):
         file_path = os.path.join(
             tempfile.gettempdir(), "__dataplicity_remote_directory_scan___.json"
         )
-        with open(file_path, "wb") as scan_file:
+        # Replace the file in a single step, it may be read at any time
+        temp_path = file_path + "~"
+        with open(temp_path, "wb") as scan_file:
             scan_file.write(scan_json)
+        os.rename(temp_path, file_path)
-- 
2.43.0


From 6f57ebde84c4160f1bc6d0c551ae7ee21567b6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:02 +0000
Subject: [PATCH 19/48] fix: answer a scan request when the scan fails

---
 dataplicity/directory_scanner.py | 22 ++++++++++++++++++----
 dataplicity/m2m/wsclient.py      |  6 +++++-
 dataplicity/remote_directory.py  |  6 +++---
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/dataplicity/directory_scanner.py b/dataplicity/directory_scanner.py
index 9928dfa..19d8c0c 100644
--- a/dataplicity/directory_scanner.py
+++ b/dataplicity/directory_scanner.py
@@ -29,19 +29,33 @@ class DirectoryScanner(object):
 
         self._lock = Lock()
 
-    def perform_scan(self, file_sizes=True, on_success=None):
-        # type: (bool, Callable[[], None]) -> None
+    def perform_scan(self, file_sizes=True, on_success=None, on_error=None):
+        # type: (bool, Callable[[], None], Callable[[Exception], None]) -> None
         """Perform a scan in the background."""
         if self._lock.locked():
             # Scan is in progress, no point in doing another
             return
         thread = Thread(
             target=self._perform_scan,
-            kwargs={"file_sizes": file_sizes, "on_success": on_success},
+            kwargs={
+                "file_sizes": file_sizes,
+                "on_success": on_success,
+                "on_error": on_error,
+            },
         )
         thread.start()
 
-    def _perform_scan(self, file_sizes=True, on_success=None):
+    def _perform_scan(self, file_sizes=True, on_success=None, on_error=None):
+        # type: (bool, Optional[Callable], Optional[Callable]) -> None
+        """Scan, then report a failure to on_error."""
+        try:
+            self._scan(file_sizes=file_sizes, on_success=on_success)
+        except Exception as error:
+            if on_error is None:
+                raise
+            on_error(error)
+
+    def _scan(self, file_sizes=True, on_success=None):
         # type: (bool, Optional[Callable]) -> None
         """Scan and upload directory structure."""
         with self._lock:
diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index db38244..c9f11b5 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -489,8 +489,12 @@ class WSClient(threading.Thread):
         def on_success():
             self.send("scan_remote_directory_result", "")
 
+        def on_error(error):
+            # An empty string would mean success
+            self.send("scan_remote_directory_result", str(error) or repr(error))
+
         try:
-            self.remote_directory.scan(on_success=on_success)
+            self.remote_directory.scan(on_success=on_success, on_error=on_error)
         except Exception as error:
             self.send("scan_remote_directory_result", str(error))
 
diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index a39b3a7..e6e4ac4 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -88,10 +88,10 @@ class RemoteDirectory(object):
         # type: () -> Text
         return "RemoteDirectory(%r)" % self.path
 
-    def scan(self, on_success=None):
-        # type: (Callable[[], None]) -> None
+    def scan(self, on_success=None, on_error=None):
+        # type: (Callable[[], None], Callable[[Exception], None]) -> None
         """Scan remote directory."""
-        self.directory_scanner.perform_scan(on_success=on_success)
+        self.directory_scanner.perform_scan(on_success=on_success, on_error=on_error)
 
     def get_snapshot_path(self, upload_id):
         # type: (Text) -> Text
-- 
2.43.0


From ab9ced477c564b516d6e08119654d1405bb10582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:25 +0000
Subject: [PATCH 20/48] fix: report an invalid log level as an error

---
 dataplicity/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/app.py b/dataplicity/app.py
index 13066b6..f3d0fdc 100644
--- a/dataplicity/app.py
+++ b/dataplicity/app.py
@@ -123,7 +123,7 @@ class App(object):
         log_level = "CRITICAL" if self.args.quiet else self.args.log_level.upper()
         try:
             log_level_no = _logging_level_names[log_level]
-        except IndexError:
+        except KeyError:
             self.error("invalid log level")
 
         if self.args.log_file:
-- 
2.43.0


From a2cd43d1134fd1adc3a1ccf86ce6f5f8e485e066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:51 +0000
Subject: [PATCH 21/48] fix: raise ProtocolError for any malformed JSON-RPC
 response

---
 dataplicity/jsonrpc.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/dataplicity/jsonrpc.py b/dataplicity/jsonrpc.py
index 2d96f33..c8d8fbd 100644
--- a/dataplicity/jsonrpc.py
+++ b/dataplicity/jsonrpc.py
@@ -66,6 +66,11 @@ class ErrorCode(object):
     }
 
 
+def is_valid_id(call_id):
+    """Check for a call ID that JSONRPC permits (null, a string, or a number)."""
+    return not isinstance(call_id, (dict, list))
+
+
 class Batch(object):
     """An object that stores a batch of rpc calls
 
@@ -130,11 +135,21 @@ class Batch(object):
     def send(self):
         response_json = self.client._send(self.calls)
         self.sent = True
-        response = json.loads(response_json)
+        try:
+            response = json.loads(response_json)
+        except Exception:
+            log.error("unable to decode %s", repr(response_json)[:100])
+            raise InvalidResponseError("unable to decode response as JSON")
 
         if not isinstance(response, list):
             raise ProtocolError("Expected a list of response from the server")
 
+        for r in response:
+            if not isinstance(r, dict) or not is_valid_id(r.get("id", None)):
+                raise ProtocolError("Invalid response from server")
+            if "error" in r and "id" not in r:
+                raise ProtocolError("Invalid response from server")
+
         self.responses = [
             (r.get("error", None), r.get("result", None)) for r in response
         ]
@@ -207,6 +222,9 @@ class JSONRPC(object):
             log.error("unable to decode %s", repr(response_json)[:100])
             raise InvalidResponseError("unable to decode response as JSON")
 
+        if not isinstance(response, dict):
+            raise ProtocolError("Invalid response from server")
+
         if "jsonrpc" not in response or "id" not in response:
             raise ProtocolError("Invalid response from server")
 
@@ -234,8 +252,11 @@ class JSONRPC(object):
         return Batch(self)
 
     def _handle_error(self, method, error):
+        if not isinstance(error, dict):
+            raise ProtocolError("Invalid error in response from server")
+
         code = error.get("code")
-        if code in ErrorCode.to_str:
+        if isinstance(code, int) and code in ErrorCode.to_str:
             raise RemoteError(
                 method,
                 code,
-- 
2.43.0


From c904b867ebb37451366ef2eea08f56551456fb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:58 +0000
Subject: [PATCH 22/48] fix: list directories where they are, even if also
 reached through a link

---
 dataplicity/scan_directory.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/dataplicity/scan_directory.py b/dataplicity/scan_directory.py
index edd4955..bb5bc7e 100644
--- a/dataplicity/scan_directory.py
+++ b/dataplicity/scan_directory.py
@@ -45,6 +45,10 @@ except ImportError:
             # type: () -> bool
             return not S_ISDIR(self.stat().st_mode)
 
+        def is_symlink(self):
+            # type: () -> bool
+            return os.path.islink(self.path)
+
         def inode(self):
             # type: () -> int
             return self.stat().st_ino
@@ -62,7 +66,7 @@ ScanResult = TypedDict(
     "ScanResult",
     {"root": str, "time": float, "directories": Dict[str, DirectoryDict]},
 )
-_ScanStackEntry = Tuple[str, Iterable[DirEntry]]
+_ScanStackEntry = Tuple[str, Iterable[DirEntry], bool]
 
 log = logging.getLogger("agent")
 
@@ -113,12 +117,12 @@ def scan_directory(root_path, file_sizes=False, max_depth=10):
     directories = {}  # type: Dict[str, DirectoryDict]
     visited_directories = set()  # type: Set[int]
 
-    def push_directory(path):
-        # type: (str) -> None
+    def push_directory(path, linked=False):
+        # type: (str, bool) -> None
         """Push a new directory on to the stack."""
         scan_path = os.path.join(root_path, path)
         try:
-            stack_entry = path, scandir(scan_path)
+            stack_entry = path, scandir(scan_path), linked
             push(stack_entry)
         except Exception as error:
             # Doesn't matter what the error is, log it and continue
@@ -132,7 +136,7 @@ def scan_directory(root_path, file_sizes=False, max_depth=10):
     push_directory("")
     join = os.path.join
     while stack:
-        path, scan = stack[-1]
+        path, scan, linked = stack[-1]
         try:
             dir_entry = next(scan)
         except StopIteration:
@@ -157,16 +161,20 @@ def scan_directory(root_path, file_sizes=False, max_depth=10):
                 # Max depth reached, so skip this dir
                 continue
             try:
+                # Directories are always included where they really are, only
+                # what is reached through a link may be recursive
+                linked = linked or dir_entry.is_symlink()
                 inode = dir_entry.inode()
             except Exception as error:
                 log.warning("error in inode; %r", error)
             else:
-                if inode in visited_directories:
+                if linked and inode in visited_directories:
                     # We have visited this directory before, we must have a recursive link
                     continue
                 directories[path].setdefault("dirs", []).append(dir_entry.name)
-                visited_directories.add(inode)
-            push_directory(join(path, dir_entry.name))
+                if linked:
+                    visited_directories.add(inode)
+            push_directory(join(path, dir_entry.name), linked)
         elif is_file:
             try:
                 size = dir_entry.stat().st_size
-- 
2.43.0


From f180bfbed83fd2e63de1b9a0ff820c01f9c797a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:58 +0000
Subject: [PATCH 23/48] fix: don't fail a scan because one directory can't be
 read

---
 dataplicity/scan_directory.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataplicity/scan_directory.py b/dataplicity/scan_directory.py
index bb5bc7e..e802f20 100644
--- a/dataplicity/scan_directory.py
+++ b/dataplicity/scan_directory.py
@@ -143,6 +143,11 @@ def scan_directory(root_path, file_sizes=False, max_depth=10):
             # End of directory scan, we can discard top of stack
             pop()
             continue
+        except Exception as error:
+            # As above, no reason to fail the entire scan
+            log.warning("error reading %r; %s", path, error)
+            pop()
+            continue
         if dir_entry.name.startswith("."):
             # Exclude hidden files and directories
             continue
-- 
2.43.0


From f55ef668a3b72df15a4d1d849f5a1606897cae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:31 +0000
Subject: [PATCH 24/48] fix: refuse a bencode length with too many digits with
 DecodeError

---
 dataplicity/m2m/bencode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dataplicity/m2m/bencode.py b/dataplicity/m2m/bencode.py
index 34b87b5..8641b5d 100644
--- a/dataplicity/m2m/bencode.py
+++ b/dataplicity/m2m/bencode.py
@@ -165,10 +165,11 @@ def _decode(read):
             if not c.isdigit():
                 raise DecodeError("illegal digit in size")
             size_bytes += c
-        size = int(size_bytes)
         try:
+            size = int(size_bytes)
             value = read(size)
-        except OverflowError:
+        except (OverflowError, ValueError):
+            # More than can be represented, so more than there is
             raise DecodeError("unexpected end of data")
         if len(value) != size:
             raise DecodeError("unexpected end of data")
-- 
2.43.0


From 0a652e8b6e9bb8f4457ab3b8adacad4f8d5c0086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:41 +0000
Subject: [PATCH 25/48] fix: ignore m2m messages that are not lists

---
 dataplicity/m2m/wsclient.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index c9f11b5..990d481 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -349,6 +349,9 @@ class WSClient(threading.Thread):
     def on_packet(self, packet):
         """Called with a binary packet."""
         try:
+            if not isinstance(packet, list):
+                # Indexing bytes would also give an integer
+                raise ValueError("packet must be a list")
             packet_type = packet[0]
             packet_body = packet[1:]
         except Exception:
-- 
2.43.0


From 6f64005cc81dff05e27e250f4e5a7aca950730e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:50 +0000
Subject: [PATCH 26/48] fix: don't log between the fork and exec of a
 terminal's process

---
 dataplicity/m2m/proxy.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/dataplicity/m2m/proxy.py b/dataplicity/m2m/proxy.py
index 19fc784..d750887 100644
--- a/dataplicity/m2m/proxy.py
+++ b/dataplicity/m2m/proxy.py
@@ -67,27 +67,23 @@ class Interceptor(object):
         self.master_fd = master_fd
         self.pid = pid
         if pid == pty.CHILD:
+            # No logging here: another thread may have held a logging lock when
+            # we forked, and then waiting for it would never end.
             try:
                 # Switch group first, as we may not have permission to once we
                 # have switched user. Any failure means the command isn't run.
                 if self.group is not None:
-                    gid = grp.getgrnam(self.group).gr_gid
-                    os.setgid(gid)
-                    log.debug(
-                        "switched group for remote process to %s(%s)", self.group, gid
-                    )
+                    os.setgid(grp.getgrnam(self.group).gr_gid)
                 if self.user is not None:
-                    uid = pwd.getpwnam(self.user).pw_uid
-                    os.setuid(uid)
-                    log.debug(
-                        "switched user for remote process to %s(%s)", self.user, uid
-                    )
+                    os.setuid(pwd.getpwnam(self.user).pw_uid)
                 if not argv:
                     argv = [os.environ["SHELL"]]
                 os.execlp(argv[0], *argv)
                 # Previous command replaces the process
             except Exception as error:
-                log.error("unable to run remote process; %s", error)
+                # This is the terminal, not the agent's log
+                message = "unable to run remote process; {}\r\n".format(error)
+                os.write(2, message.encode("utf-8", "replace"))
             finally:
                 # Never let this copy of the agent return to the caller
                 os._exit(1)
-- 
2.43.0


From 043f435a1552b3373b5b0ca15a4751e1af2352f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:25 +0000
Subject: [PATCH 27/48] fix: don't keep the incomplete snapshot of an upload
 that could not be opened

---
 dataplicity/remote_directory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index e6e4ac4..f82b93d 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -206,8 +206,11 @@ class RemoteDirectory(object):
             log.debug("created snapshot for %s; %s", file_path, snapshot_path)
             return snapshot_size
         except (IOError, OSError) as error:
+            # Don't serve an incomplete snapshot
+            self.close_upload(upload_id)
             raise AddFail("Unable to open (%s)" % error.strerror)
         except Exception as error:
+            self.close_upload(upload_id)
             log.error("failed to add_upload; %r", error)
             raise AddFail("Unable to open; %s" % error)
 
-- 
2.43.0


From c56f70fb5738622467752d6ef23316edb1e01d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:00 +0000
Subject: [PATCH 28/48] fix: give concurrent JSON-RPC calls distinct ids

---
 dataplicity/jsonrpc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dataplicity/jsonrpc.py b/dataplicity/jsonrpc.py
index c8d8fbd..be7264c 100644
--- a/dataplicity/jsonrpc.py
+++ b/dataplicity/jsonrpc.py
@@ -3,6 +3,7 @@ from __future__ import unicode_literals
 
 import json
 import logging
+from threading import Lock
 
 from .compat import urlopen, text_type
 
@@ -186,10 +187,12 @@ class JSONRPC(object):
     def __init__(self, url):
         self.url = url
         self.call_id = 1
+        self._call_id_lock = Lock()
 
     def new_call_id(self):
-        self.call_id += 1
-        return self.call_id
+        with self._call_id_lock:
+            self.call_id += 1
+            return self.call_id
 
     def _send(self, call):
         call_json = json.dumps(call)
-- 
2.43.0


From dd279cc0f492d6878ff14a68eda9a99c263d5d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:26 +0000
Subject: [PATCH 29/48] fix: notice clock changes between two periods of the
 clock check

---
 dataplicity/clockcheck.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dataplicity/clockcheck.py b/dataplicity/clockcheck.py
index 8ccd7f1..bd32f6d 100644
--- a/dataplicity/clockcheck.py
+++ b/dataplicity/clockcheck.py
@@ -29,10 +29,14 @@ class ClockCheckThread(Thread):
 
     def run(self):
         """Calls `on_fail` when the system clock changes."""
+        start = time()
         while self.running:
-            start = time()
             sleep(CHECK_PERIOD)
-            elapsed = time() - start
+            # Every reading also starts the next period, so that no change
+            # of the clock can fall between two periods.
+            now = time()
+            elapsed = now - start
+            start = now
 
             if elapsed > MAX_CLOCK_DISCREPANCY:
                 self.on_fail()
-- 
2.43.0


From 9ec631fb45f72dcdd8e72cfbe7d799a2a072554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 30/48] fix: don't log the start of m2m messages, which may be
 a password

---
 dataplicity/m2m/wsclient.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 990d481..597b156 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -267,7 +267,11 @@ class WSClient(threading.Thread):
         try:
             with self.websocket:
                 for event in persist(self.websocket):
-                    log.debug("WS %r", event)
+                    if event.name == "binary":
+                        # Don't log the content, packets may contain passwords
+                        log.debug("WS binary message (%s bytes)", len(event.data))
+                    else:
+                        log.debug("WS %r", event)
                     try:
                         self.on_event(event)
                     except Exception as error:
-- 
2.43.0


From 07237e0ba3f144883799d7df8f13827e33cc8d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 31/48] fix: don't repeat the auth token when the agent fails
 to start

---
 dataplicity/app.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataplicity/app.py b/dataplicity/app.py
index f3d0fdc..2be67eb 100644
--- a/dataplicity/app.py
+++ b/dataplicity/app.py
@@ -194,6 +194,9 @@ class App(object):
             sys.stderr.write("(dataplicity {}) {}\n".format(__version__, e))
             cmd = sys.argv[0].rsplit("/", 1)[-1]
             debug_cmd = " ".join([cmd, "--debug"] + sys.argv[1:])
+            if args.auth_token:
+                # This may end up in a log
+                debug_cmd = debug_cmd.replace(args.auth_token, "<auth token>")
             sys.stderr.write("(run '{}' for a full traceback)\n".format(debug_cmd))
             return -1
 
-- 
2.43.0


From 0b3ac6ce253aaa157aec6f0dafe65294b3862ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 32/48] fix: don't drop undecodable bytes from instructions

---
 dataplicity/m2mmanager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataplicity/m2mmanager.py b/dataplicity/m2mmanager.py
index b89ff21..f92420e 100644
--- a/dataplicity/m2mmanager.py
+++ b/dataplicity/m2mmanager.py
@@ -153,15 +153,17 @@ class M2MManager(object):
 
         if PY3:
 
+            # Keeps bytes that are not UTF-8, which may occur in paths and
+            # commands, and make a difference in actions and names
             def decode_string(value):
                 return (
-                    value.decode("utf-8", "ignore")
+                    value.decode("utf-8", "surrogateescape")
                     if isinstance(value, bytes)
                     else value
                 )
 
             data = dict(
-                (key.decode("utf-8", "ignore"), decode_string(value))
+                (key.decode("utf-8", "surrogateescape"), decode_string(value))
                 for key, value in data.items()
             )
         action = data["action"]
-- 
2.43.0


From 5df07643caea7ce250134fd58fbf9c120aa1a8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 33/48] fix: refuse instructions with ill-typed ports, paths
 and commands

---
 dataplicity/m2m/wsclient.py | 5 ++++-
 dataplicity/m2mmanager.py   | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 597b156..3a7194e 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -15,7 +15,7 @@ from lomond.errors import WebSocketError
 
 from . import bencode
 from . import packets
-from ..compat import text_type
+from ..compat import int_types, text_type
 from .dispatcher import Dispatcher, expose
 from .packets import M2MPacket as Packet
 from .packets import PacketType
@@ -242,6 +242,9 @@ class WSClient(threading.Thread):
 
     def get_channel(self, channel_no):
         # TODO: Create channels in response to packets
+        if not isinstance(channel_no, int_types):
+            # The server could never refer to it
+            raise TypeError("channel number must be an integer")
         if channel_no not in self.channels:
             self.channels[channel_no] = Channel(self, channel_no)
         return self.channels[channel_no]
diff --git a/dataplicity/m2mmanager.py b/dataplicity/m2mmanager.py
index f92420e..d661b51 100644
--- a/dataplicity/m2mmanager.py
+++ b/dataplicity/m2mmanager.py
@@ -7,7 +7,7 @@ import subprocess
 import threading
 
 from . import constants
-from .compat import PY3
+from .compat import PY3, text_type
 from .limiter import Limiter
 from .m2m import EchoService, WSClient
 from .m2m.commandservice import CommandService
@@ -226,10 +226,14 @@ class M2MManager(object):
 
     def open_file_service(self, port, path):
         """Open a file service, to send a file over a port."""
+        if not isinstance(path, (bytes, text_type)):
+            raise TypeError("path must be a string")
         channel = self.m2m_client.get_channel(port)
         FileService(self.services_limiter, channel, path)
 
     def open_command_service(self, port, command):
         """Open a service that runs a command and sends the stdout over m2m."""
+        if not isinstance(command, (bytes, text_type)):
+            raise TypeError("command must be a string")
         channel = self.m2m_client.get_channel(port)
         CommandService(self.services_limiter, channel, command)
-- 
2.43.0


From 13919e2c98ed5795cc5bd1e0feb03bbdaa7fad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 34/48] fix: don't wait forever to write to a terminal that has
 hung up

---
 dataplicity/m2m/proxy.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dataplicity/m2m/proxy.py b/dataplicity/m2m/proxy.py
index d750887..5453729 100644
--- a/dataplicity/m2m/proxy.py
+++ b/dataplicity/m2m/proxy.py
@@ -19,6 +19,7 @@
 # THE SOFTWARE.
 
 import array
+import errno
 import fcntl
 import logging
 import os
@@ -88,6 +89,10 @@ class Interceptor(object):
                 # Never let this copy of the agent return to the caller
                 os._exit(1)
 
+        # A blocked write isn't reliably woken by a hang up
+        flags = fcntl.fcntl(master_fd, fcntl.F_GETFL)
+        fcntl.fcntl(master_fd, fcntl.F_SETFL, flags | os.O_NONBLOCK)
+
         try:
             self._init_fd()
         except Exception:
@@ -184,9 +189,20 @@ class Interceptor(object):
         """
         master_fd = self.master_fd
         assert master_fd is not None
+        poll = select.poll()
+        poll.register(master_fd, select.POLLOUT)
         while data:
-            n = os.write(master_fd, data)
-            data = data[n:]
+            try:
+                n = os.write(master_fd, data)
+            except OSError as error:
+                if error.errno != errno.EAGAIN:
+                    raise
+                # The process isn't reading, wait until it does or hangs up
+                for _file_descriptor, event_mask in poll.poll(1000):
+                    if event_mask & (select.POLLERR | select.POLLHUP):
+                        raise
+            else:
+                data = data[n:]
 
     def master_read(self, data):
         """
-- 
2.43.0


From f5edb5952ce24007218951f6a13bcfba61eeb008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:49 +0000
Subject: [PATCH 35/48] fix: don't ignore an interrupt while reading meta
 information

---
 dataplicity/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/client.py b/dataplicity/client.py
index d5ace6a..289373a 100644
--- a/dataplicity/client.py
+++ b/dataplicity/client.py
@@ -254,7 +254,7 @@ class Client(object):
         try:
             meta = device_meta.get_meta()
             log.debug("syncing meta %r", meta)
-        except:
+        except Exception:
             log.exception("error getting meta")
         else:
             batch.call_with_id(
-- 
2.43.0


From a6f9a3cb3c4e245e11d12b9f0f31977dd79983e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:55 +0000
Subject: [PATCH 36/48] fix: don't reset a port forward closed while its local
 server is writing

---
 dataplicity/portforward.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index 57b31c6..de9e29d 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -20,6 +20,9 @@ from .constants import CHUNK_SIZE, SERVER_BUSY
 
 log = logging.getLogger("pf")
 
+# Seconds to discard data from the local server, after the channel has closed
+DISCARD_TIME = 5
+
 
 class Connection(threading.Thread):
     """Handles a single remote controlled TCP/IP connection."""
@@ -74,6 +77,7 @@ class Connection(threading.Thread):
             log.debug("entered recv loop")
             # Read all the data we can and write it to the channel
             reading = True
+            discard_start = None
             while reading and not self.close_event.is_set():
                 # Block for a period of time until the socket becomes readable,
                 # or there is an error
@@ -84,7 +88,12 @@ class Connection(threading.Thread):
                     log.warning("error in portforward.py poll.poll; %s", error)
                     break
                 if self.channel.is_closed:
-                    break
+                    # What is read now is discarded, but closing a socket with
+                    # unread data may lose what the local server hasn't read yet
+                    if discard_start is None:
+                        discard_start = time()
+                    if not poll_result or time() - discard_start > DISCARD_TIME:
+                        break
                 for _file_descriptor, event_mask in poll_result:
                     if event_mask & readable_events:
                         try:
-- 
2.43.0


From 5573470c334e47b0cce63878e46444286f4de066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:26 +0000
Subject: [PATCH 37/48] fix: give up API requests the server never answers

Without a time limit, a poll (or the m2m thread, which announces its
identity) waited for ever for an API server that accepts a connection
and never replies.
---
 dataplicity/jsonrpc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataplicity/jsonrpc.py b/dataplicity/jsonrpc.py
index be7264c..5455f12 100644
--- a/dataplicity/jsonrpc.py
+++ b/dataplicity/jsonrpc.py
@@ -183,6 +183,8 @@ class JSONRPC(object):
     """A client for a JSONRPC server."""
 
     unknown_error_msg = "the server did not supply further information"
+    # Seconds to wait on a server that doesn't answer
+    timeout = 30
 
     def __init__(self, url):
         self.url = url
@@ -203,7 +205,7 @@ class JSONRPC(object):
         url_file = None
         try:
             try:
-                url_file = urlopen(self.url, call_json)
+                url_file = urlopen(self.url, call_json, timeout=self.timeout)
                 response_json = url_file.read().decode("utf-8")
             finally:
                 if url_file is not None:
-- 
2.43.0


From 79ced6e2a966858c90d0dee1c8ac5410c32ffe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:38 +0000
Subject: [PATCH 38/48] fix: report meta information though model name or
 revision is not UTF-8

---
 dataplicity/rpi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataplicity/rpi.py b/dataplicity/rpi.py
index 54d4049..619c3ea 100644
--- a/dataplicity/rpi.py
+++ b/dataplicity/rpi.py
@@ -31,7 +31,7 @@ def get_machine_revision():
         return None
     else:
         if isinstance(revision_code, bytes):
-            return revision_code.decode("utf-8")
+            return revision_code.decode("utf-8", "replace")
         return revision_code
 
 
@@ -42,6 +42,6 @@ def get_model_name():
     """
     try:
         with open("/proc/device-tree/model", "rb") as fp:
-            return fp.read().decode("utf-8")
+            return fp.read().decode("utf-8", "replace")
     except IOError:
         return ""
-- 
2.43.0


From 6e07b92e9262d0f209deac42ebcd68b735dc68c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:38 +0000
Subject: [PATCH 39/48] fix: report the IP addresses of now, not those of the
 first attempt

---
 dataplicity/device_meta.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dataplicity/device_meta.py b/dataplicity/device_meta.py
index 9a6e121..bbef35a 100644
--- a/dataplicity/device_meta.py
+++ b/dataplicity/device_meta.py
@@ -12,7 +12,8 @@ from .iptool import get_all_interfaces
 log = logging.getLogger("agent")
 
 
-# Cache the meta dict because it never changes
+# Cache the meta dict because it never changes (with the exception of the
+# ip addresses, the network may not be up yet)
 _META_CACHE = None
 
 
@@ -20,7 +21,9 @@ def get_meta():
     """Get a dict containing device meta information."""
     global _META_CACHE
     if _META_CACHE is not None:
-        return _META_CACHE.copy()
+        meta = _META_CACHE.copy()
+        meta["ip_list"] = get_ip_address_list()
+        return meta
     meta = {}
     meta["agent_version"] = __version__
     meta["machine_revision"] = rpi.get_machine_revision()
-- 
2.43.0


From 3ce7a9da5dc626f6fa3b98b4e2c20c133f2ae48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:37 +0000
Subject: [PATCH 40/48] fix: release the pty and close the channel of a
 terminal that failed to start

---
 dataplicity/m2m/proxy.py         | 31 ++++++++++++++++---------------
 dataplicity/m2m/remoteprocess.py |  4 ++++
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/dataplicity/m2m/proxy.py b/dataplicity/m2m/proxy.py
index 5453729..2596a8d 100644
--- a/dataplicity/m2m/proxy.py
+++ b/dataplicity/m2m/proxy.py
@@ -89,23 +89,24 @@ class Interceptor(object):
                 # Never let this copy of the agent return to the caller
                 os._exit(1)
 
-        # A blocked write isn't reliably woken by a hang up
-        flags = fcntl.fcntl(master_fd, fcntl.F_GETFL)
-        fcntl.fcntl(master_fd, fcntl.F_SETFL, flags | os.O_NONBLOCK)
-
-        try:
-            self._init_fd()
-        except Exception:
-            # Most likely a bad size, but the process is running
-            log.exception("failed to set up pty")
         try:
-            self._copy()
-        except (IOError, OSError):
-            pass
+            # A blocked write isn't reliably woken by a hang up
+            flags = fcntl.fcntl(master_fd, fcntl.F_GETFL)
+            fcntl.fcntl(master_fd, fcntl.F_SETFL, flags | os.O_NONBLOCK)
 
-        with self._fd_lock:
-            self.master_fd = None
-            os.close(master_fd)
+            try:
+                self._init_fd()
+            except Exception:
+                # Most likely a bad size, but the process is running
+                log.exception("failed to set up pty")
+            try:
+                self._copy()
+            except (IOError, OSError):
+                pass
+        finally:
+            with self._fd_lock:
+                self.master_fd = None
+                os.close(master_fd)
 
     def _init_fd(self):
         """
diff --git a/dataplicity/m2m/remoteprocess.py b/dataplicity/m2m/remoteprocess.py
index 4a58d12..3677a8b 100644
--- a/dataplicity/m2m/remoteprocess.py
+++ b/dataplicity/m2m/remoteprocess.py
@@ -102,6 +102,10 @@ class RemoteProcess(proxy.Interceptor):
         try:
             if not self.is_closed:
                 self.spawn(shlex.split(self.command))
+        except Exception:
+            # Most likely out of processes, threads, or file descriptors
+            log.exception("failed to run remote process")
+            self.channel.close()
         finally:
             self._ended = True
             self.limiter.decrement()
-- 
2.43.0


From e0f29c072c0aaaff8d595c9913f83d0d812c017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:37 +0000
Subject: [PATCH 41/48] fix: kill and reap a closed terminal's process when out
 of threads

---
 dataplicity/m2m/remoteprocess.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataplicity/m2m/remoteprocess.py b/dataplicity/m2m/remoteprocess.py
index 3677a8b..cac4537 100644
--- a/dataplicity/m2m/remoteprocess.py
+++ b/dataplicity/m2m/remoteprocess.py
@@ -184,6 +184,9 @@ class RemoteProcess(proxy.Interceptor):
             wait_thread.start()
         except Exception as error:
             log.warning("pid wait thread failed to launch; %s", error)
+            # Nothing can kill or reap the process later
+            os.kill(self.pid, signal.SIGKILL)
+            os.waitpid(self.pid, 0)
 
     def __enter__(self):
         return self
-- 
2.43.0


From 9c72887409a5b5f2f6cde0dcfcc14c7ad6edde4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:42 +0000
Subject: [PATCH 42/48] fix: don't leak a pty when a terminal's process can't
 be forked

---
 dataplicity/m2m/proxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/proxy.py b/dataplicity/m2m/proxy.py
index 2596a8d..2c52ad8 100644
--- a/dataplicity/m2m/proxy.py
+++ b/dataplicity/m2m/proxy.py
@@ -64,7 +64,8 @@ class Interceptor(object):
         """
         assert self.master_fd is None
 
-        pid, master_fd = pty.fork()
+        # pty.fork would leak a pty when it can't fork
+        pid, master_fd = os.forkpty()
         self.master_fd = master_fd
         self.pid = pid
         if pid == pty.CHILD:
-- 
2.43.0


From e8d9f92460d0f9d8c0844a129fa18afa809c65aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:17 +0000
Subject: [PATCH 43/48] fix: check the certificate of a secure m2m server

Lomond wraps its sockets with a context that accepts any certificate, so
that anybody between the device and the m2m server could pose as it and
run commands on the device. Use the default context of Python, which
verifies the certificate and the host name, as urlopen does for the API.
---
 dataplicity/m2m/wsclient.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 3a7194e..ed7ae22 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -3,6 +3,7 @@ from __future__ import unicode_literals
 
 import json
 import logging
+import ssl
 import sys
 import threading
 import time
@@ -12,6 +13,7 @@ from lomond import WebSocket
 from lomond.constants import USER_AGENT as LOMOND_USER_AGENT
 from lomond.persist import persist
 from lomond.errors import WebSocketError
+from lomond.session import WebsocketSession
 
 from . import bencode
 from . import packets
@@ -29,6 +31,26 @@ class ClientError(Exception):
     pass
 
 
+class VerifiedSession(WebsocketSession):
+    """A session that checks the certificate of a secure server."""
+
+    def _wrap_socket(self, sock, host):
+        # The default of Lomond is to accept any certificate
+        create_context = getattr(ssl, "create_default_context", None)
+        if create_context is None:  # Python 2.7.8 and earlier
+            return super(VerifiedSession, self)._wrap_socket(sock, host)
+        return create_context().wrap_socket(sock, server_hostname=host)
+
+
+class VerifiedWebSocket(WebSocket):
+    """A websocket that only talks to the server it was told to."""
+
+    def connect(self, session_class=VerifiedSession, **options):
+        return super(VerifiedWebSocket, self).connect(
+            session_class=session_class, **options
+        )
+
+
 class ChannelFile(object):
     """Mimicks a writable file."""
 
@@ -183,7 +205,7 @@ class WSClient(threading.Thread):
         self.url = url
         self.remote_directory = remote_directory
         _user_agent = "Agent/{} {}".format(__version__, LOMOND_USER_AGENT)
-        self.websocket = WebSocket(url, agent=_user_agent, compress=True)
+        self.websocket = VerifiedWebSocket(url, agent=_user_agent, compress=True)
         self.channel_callback = channel_callback
         self.control_callback = control_callback
 
-- 
2.43.0


From 0964d376d900d415b4067b3749d97866ee67e43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:32 +0000
Subject: [PATCH 44/48] fix: give up an m2m connection whose server is silent

A server that accepted a connection but never answered the upgrade
request, stopped answering pings, or stopped reading kept the agent on
that connection for ever. Give it up after ten minutes without an answer
(to the upgrade request, to pings or to data), and connect again.
---
 dataplicity/m2m/wsclient.py | 48 +++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index ed7ae22..22ae2d5 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -3,6 +3,7 @@ from __future__ import unicode_literals
 
 import json
 import logging
+import socket
 import ssl
 import sys
 import threading
@@ -13,6 +14,7 @@ from lomond import WebSocket
 from lomond.constants import USER_AGENT as LOMOND_USER_AGENT
 from lomond.persist import persist
 from lomond.errors import WebSocketError
+from lomond.selectors import PlatformSelector
 from lomond.session import WebsocketSession
 
 from . import bencode
@@ -31,8 +33,48 @@ class ClientError(Exception):
     pass
 
 
+# Seconds without an answer (to the upgrade request, to pings, or to what was
+# sent) after which a connection is given up. Pings may have to wait for all
+# that is in the buffer of a slow connection.
+SILENCE_TIMEOUT = 600
+
+# Linux, missing in older Pythons
+TCP_USER_TIMEOUT = getattr(socket, "TCP_USER_TIMEOUT", 18)
+
+
+class UpgradeSelector(PlatformSelector):
+    """Waits for data, but not for ever if the connection isn't upgraded."""
+
+    def __init__(self, session, sock):
+        super(UpgradeSelector, self).__init__(sock)
+        self.session = session
+        self.start_time = time.time()
+
+    def wait(self, max_bytes, timeout=0.0):
+        if (
+            self.session.session_time == 0.0
+            and time.time() > self.start_time + SILENCE_TIMEOUT
+        ):
+            raise IOError("no answer to the upgrade request")
+        return super(UpgradeSelector, self).wait(max_bytes, timeout)
+
+
 class VerifiedSession(WebsocketSession):
-    """A session that checks the certificate of a secure server."""
+    """A session that checks the certificate of a secure server, and gives up
+    on one that is silent."""
+
+    def _selector_cls(self, sock):
+        return UpgradeSelector(self, sock)
+
+    def _connect(self):
+        sock, proxy_url = super(VerifiedSession, self)._connect()
+        try:
+            sock.setsockopt(
+                socket.IPPROTO_TCP, TCP_USER_TIMEOUT, SILENCE_TIMEOUT * 1000
+            )
+        except (socket.error, OverflowError):
+            log.debug("can't set the timeout of the socket", exc_info=True)
+        return sock, proxy_url
 
     def _wrap_socket(self, sock, host):
         # The default of Lomond is to accept any certificate
@@ -291,7 +333,9 @@ class WSClient(threading.Thread):
         """Main websocket handling loop."""
         try:
             with self.websocket:
-                for event in persist(self.websocket):
+                for event in persist(
+                    self.websocket, ping_timeout=SILENCE_TIMEOUT
+                ):
                     if event.name == "binary":
                         # Don't log the content, packets may contain passwords
                         log.debug("WS binary message (%s bytes)", len(event.data))
-- 
2.43.0


From 500b6e8a609a92702fa01f56ce68bcffdde27156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:32 +0000
Subject: [PATCH 45/48] fix: keep snapshots, downloads and scans from other
 users

They were made in directories all users can write to, with permissions
for everybody, and where another user had made a directory or link of
the same name before, that was used: files were copied, overwritten and
removed where the other user wanted. Use directories and files that are
ours alone, and refuse others.
---
 dataplicity/directory_scanner.py |  6 ++++-
 dataplicity/remote_directory.py  | 38 +++++++++++++++++++++++++++-----
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/dataplicity/directory_scanner.py b/dataplicity/directory_scanner.py
index 19d8c0c..98fcc00 100644
--- a/dataplicity/directory_scanner.py
+++ b/dataplicity/directory_scanner.py
@@ -96,6 +96,10 @@ class DirectoryScanner(object):
         )
         # Replace the file in a single step, it may be read at any time
         temp_path = file_path + "~"
-        with open(temp_path, "wb") as scan_file:
+        if os.path.lexists(temp_path):
+            os.remove(temp_path)
+        # Other users can write to this directory, and must not read the scan
+        flags = os.O_WRONLY | os.O_CREAT | os.O_EXCL
+        with os.fdopen(os.open(temp_path, flags, 0o600), "wb") as scan_file:
             scan_file.write(scan_json)
         os.rename(temp_path, file_path)
diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index f82b93d..f43ba67 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -1,8 +1,10 @@
+import errno
 import logging
 import shutil
 import os
 import os.path
 import shutil
+import stat
 import tempfile
 import typing
 
@@ -71,6 +73,33 @@ def validate_filename(name):
     return name not in ("", ".", "..") and os.sep not in name and "\0" not in name
 
 
+def make_private_directory(path):
+    # type: (Text) -> None
+    """Make sure a directory exists, and is ours alone.
+
+    It is in a place all users can write to, where another user may have made
+    something of this name before.
+
+    Args:
+        path (Text): Path of the directory.
+
+    Raises:
+        RemoteDirectoryError: If there is something that isn't ours.
+    """
+    try:
+        os.mkdir(path, 0o700)
+    except OSError as error:
+        if error.errno != errno.EEXIST:
+            raise
+    else:
+        log.debug("created %s", path)
+    status = os.lstat(path)
+    if not stat.S_ISDIR(status.st_mode) or status.st_uid != os.geteuid():
+        raise RemoteDirectoryError("%s is not our directory" % path)
+    if stat.S_IMODE(status.st_mode) != 0o700:
+        os.chmod(path, 0o700)
+
+
 class RemoteDirectory(object):
     """Manages remote directory."""
 
@@ -108,9 +137,7 @@ class RemoteDirectory(object):
         try:
             temp_path = self.temp_path
             dir_path = os.path.join(temp_path, "dataplicity_remote")
-            if not os.path.isdir(dir_path):
-                os.mkdir(dir_path)
-                log.debug("%r created %s", self, dir_path)
+            make_private_directory(dir_path)
             snapshot_path = os.path.join(dir_path, upload_id)
             return snapshot_path
         except Exception as error:
@@ -137,9 +164,7 @@ class RemoteDirectory(object):
         if not validate_filename(id):
             raise IllegalPath("Download ID %r is illegal" % id)
         dir_path = self.downloads_path
-        if not os.path.isdir(dir_path):
-            os.mkdir(dir_path)
-            log.debug("%r created %s", self, dir_path)
+        make_private_directory(dir_path)
 
         device_path = os.path.join(dir_path, id)
 
@@ -338,6 +363,7 @@ class RemoteDirectory(object):
                 dir_path, filename = os.path.split(write_device_path)
                 if dir_path != self.downloads_path or not validate_filename(filename):
                     raise IllegalPath("Path %s is illegal" % write_device_path)
+                make_private_directory(dir_path)
         except Exception as error:
             log.exception("error adding download")
             # Couldn't create temporary location, tell server
-- 
2.43.0


From 06be96cc0775f5ba71186b14991c944b6c661d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:09 +0000
Subject: [PATCH 46/48] fix: refuse to open devices as remote files, copying
 one may never end

---
 dataplicity/remote_directory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index f43ba67..24aad93 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -219,6 +219,10 @@ class RemoteDirectory(object):
                     "not enough space on %s to create snapshot" % self.temp_path
                 )
 
+        if os.path.exists(file_path) and not os.path.isfile(file_path):
+            # Reading a device may block, or never end
+            raise AddFail("Unable to open (not a regular file)")
+
         snapshot_path = self.get_snapshot_path(upload_id)
         # Sanity check for path
         if not snapshot_path.startswith(self.temp_path):
-- 
2.43.0


From d204f74a79ffb0cd0c5e0ab27cb718f80472cd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:09 +0000
Subject: [PATCH 47/48] fix: don't allocate as much as a remote file read asks
 for, only what there is

---
 dataplicity/remote_directory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index 24aad93..8251bd7 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -261,8 +261,10 @@ class RemoteDirectory(object):
         snapshot_path = self.get_snapshot_path(upload_id)
         try:
             with open(snapshot_path, "rb") as snapshot_file:
-                snapshot_file.seek(offset)
-                data = snapshot_file.read(size)
+                # A buffer of the requested size may not fit in to memory
+                file_size = os.fstat(snapshot_file.fileno()).st_size
+                snapshot_file.seek(min(offset, file_size))
+                data = snapshot_file.read(min(size, file_size))
                 log.debug("read %i bytes from %s", len(data), snapshot_path)
         except Exception as error:
             # Most likely, the snapshot file has been removed
-- 
2.43.0


From d9778dd3cf3dc1f69f255b091ed18598ecbb3163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:27 +0000
Subject: [PATCH 48/48] fix: store downloads under their name only when
 complete, also on another disk

---
 dataplicity/remote_directory.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index 8251bd7..06243f6 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -472,7 +472,25 @@ class RemoteDirectory(object):
         except Exception:
             # Atomic rename didn't work, we will need to copy the data
             try:
-                shutil.move(device_path, destination_path)
+                self._move(device_path, destination_path)
             except Exception:
                 log.exception("unable to store download")
                 raise
+
+    def _move(self, device_path, destination_path):
+        # type (Text, Text) -> None
+        """Move a file to a directory on another disk.
+
+        It gets its name when it is complete, because the copy may fail.
+        """
+        partial_file, partial_path = tempfile.mkstemp(
+            prefix=".", dir=os.path.dirname(destination_path)
+        )
+        try:
+            os.close(partial_file)
+            shutil.copy2(device_path, partial_path)
+            os.rename(partial_path, destination_path)
+        except Exception:
+            os.remove(partial_path)
+            raise
+        os.remove(device_path)
-- 
2.43.0

