NAME = "dataplicity/clockcheck.py"
EDITS = [
("""        start = time()
        while self.running:
            sleep(CHECK_PERIOD)
            # Every reading also starts the next period, so that no change
            # of the clock can fall between two periods.
            now = time()
            elapsed = now - start
            start = now

            if elapsed > MAX_CLOCK_DISCREPANCY:
                self.on_fail()
""", """        previous = time()
        while self.running:
            sleep(CHECK_PERIOD)
            previous = self._compare(previous)

    def _compare(self, previous):
        now = time()
        if previous + MAX_CLOCK_DISCREPANCY < now:
            self.on_fail()
        return now
"""),
]
