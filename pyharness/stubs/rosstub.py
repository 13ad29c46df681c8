"""A middleware standing in for ROS 1 and ROS 2: topics with typed, serialised messages, latching and
bounded queues; nothing is delivered until spin() is called (from whatever thread)."""
import array, collections, struct
mode = "ros2"

class Msg:
    """std_msgs as generated for either version: ROS 1 checks when it serialises, ROS 2 when a field is set"""
    def __init__(s, data=None):
        if s.ARRAY:
            s._d = array.array(s.CODE) if data is None else data
            if mode == "ros2" and data is not None:
                s._d = array.array(s.CODE, data)
        else:
            s._d = s.PY()
            if data is not None:
                s.data = data
    @property
    def data(s): return s._d
    @data.setter
    def data(s, v):
        if mode == "ros2":
            if s.ARRAY:
                v = v if isinstance(v, array.array) and v.typecode == s.CODE else array.array(s.CODE, v)
            else:
                assert isinstance(v, s.PY), f"the 'data' field must be of type {s.PY.__name__}, not {type(v).__name__}"
                if s.PY is int: assert -2**31 <= v < 2**31
        s._d = v
    def serialize(s):
        if s.ARRAY:
            return struct.pack(f"<{len(s._d)}{s.CODE}", *s._d)
        return struct.pack("<" + s.CODE, s._d)
    @classmethod
    def deserialize(c, b):
        m = c()
        es = struct.calcsize("<" + c.CODE)
        v = struct.unpack(f"<{len(b) // es}{c.CODE}", b)
        m._d = (array.array(c.CODE, v) if mode == "ros2" else v) if c.ARRAY else v[0]
        return m

def _t(name, code, py, arr): return type(name, (Msg,), {"CODE": code, "PY": py, "ARRAY": arr})
Bool, Int32, Float32, Float64 = _t("Bool", "?", bool, False), _t("Int32", "i", int, False), _t("Float32", "f", float, False), _t("Float64", "d", float, False)
Int32MultiArray, Float32MultiArray, Float64MultiArray = _t("Int32MultiArray", "i", int, True), _t("Float32MultiArray", "f", float, True), _t("Float64MultiArray", "d", float, True)

class Bus:
    def __init__(s):
        s.pubs, s.subs, s.remap, s.published, s.delivered = [], [], None, 0, 0
bus = Bus()
def reset():
    global bus
    bus = Bus()

class Pub:
    def __init__(s, topic, cls, depth, latch):
        if not topic or not isinstance(topic, str): raise ValueError("bad topic")
        s.topic, s.cls, s.depth, s.latch, s.kept, s.alive = topic, cls, max(1, depth or 1), latch, collections.deque(maxlen=max(1, depth or 1) if mode == "ros2" else 1), True
        bus.pubs.append(s)
    def publish(s, m):
        if not s.alive: raise RuntimeError("publish() to a closed topic")
        if not isinstance(m, s.cls): raise TypeError(f"expected {s.cls.__name__}, got {type(m).__name__}")
        b = m.serialize()
        bus.published += 1
        if s.latch: s.kept.append(b)
        for x in bus.subs:
            if x.alive and x.matches(s): x.queue.append(b)
    def destroy(s): s.alive = False
    unregister = destroy

class Sub:
    def __init__(s, topic, cls, cb, depth):
        s.topic, s.cls, s.cb, s.queue, s.alive = topic, cls, cb, collections.deque(maxlen=max(1, depth or 1)), True
        bus.subs.append(s)
        for p in bus.pubs:
            if p.alive and p.latch and s.matches(p): s.queue.extend(p.kept)
    def matches(s, p):
        t = bus.remap(p.topic) if bus.remap else p.topic
        if t != s.topic: return False
        if p.cls is not s.cls: raise TypeError(f"{s.topic}: published as {p.cls.__name__}, subscribed as {s.cls.__name__}")
        return True
    def destroy(s): s.alive = False
    unregister = destroy

def pending():
    return [x for x in bus.subs if x.alive and x.queue]
def spin_some(rng, n=10**9):
    """delivers up to n messages, topics in any order, each topic's in order"""
    k = 0
    while k < n:
        p = pending()
        if not p: break
        x = rng.choice(p)
        b = x.queue.popleft()
        bus.delivered += 1
        k += 1
        x.cb(x.cls.deserialize(b))
    return k
