import rosstub
def Publisher(name, data_class, subscriber_listener=None, tcp_nodelay=False, latch=False, headers=None, queue_size=None):
    return rosstub.Pub(name, data_class, queue_size, latch)
def Subscriber(name, data_class, callback=None, callback_args=None, queue_size=None, buff_size=65536, tcp_nodelay=False):
    return rosstub.Sub(name, data_class, callback, queue_size)
def is_shutdown(): return False
def init_node(*a, **k): pass
