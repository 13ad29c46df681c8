import rosstub
class Node:
    def __init__(s, name): s.name = name
    def create_publisher(s, msg_type, topic, qos_profile):
        return rosstub.Pub(topic, msg_type, qos_profile.depth, qos_profile.durability == "transient_local")
    def create_subscription(s, msg_type, topic, callback, qos_profile, **k):
        return rosstub.Sub(topic, msg_type, callback, qos_profile.depth)
