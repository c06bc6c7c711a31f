NAME = "dataplicity/limiter.py"
EDITS = [
("""            if self._value >= self._limit:
                log.warning("%r reached limit", self)
                raise LimitReached(
                    "{} limit ({}) reached".format(self.name, self._limit)
                )
            self._value += 1
            log.debug("%r incremented", self)
""", """            if self._free == 0:
                log.warning("%r reached limit", self)
                raise LimitReached(
                    "{} limit ({}) reached".format(self.name, self._limit)
                )
            self._free -= 1
"""),
("""            if self._value <= 0:
                # If this occurs it indicates a bug in the caller
                raise LimiterError("Counter can't be decremented below 0")
            self._value -= 1
            log.debug("%r decremented", self)
""", """            if self._free >= self._limit:
                # If this occurs it indicates a bug in the caller
                raise LimiterError("Counter can't be decremented below 0")
            self._free += 1
"""),
("        self._value = 0\n", "        self._free = limit\n"),
("self.name, self._value, self._limit)", "self.name, self._limit - self._free, self._limit)"),
]
