class QoSProfile:
    def __init__(s, depth=10, reliability=None, durability=None, history=None, liveliness=None, **k):
        s.depth, s.reliability, s.durability, s.history = depth, reliability, durability, history
class ReliabilityPolicy: RELIABLE, BEST_EFFORT = "reliable", "best_effort"
class DurabilityPolicy: TRANSIENT_LOCAL, VOLATILE = "transient_local", "volatile"
class HistoryPolicy: KEEP_LAST, KEEP_ALL = "keep_last", "keep_all"
class LivelinessPolicy: AUTOMATIC = "automatic"
