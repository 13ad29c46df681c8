import time
class PerfSleep:
    @staticmethod
    def thread_sleep(ns): time.sleep(ns * 1e-9)
