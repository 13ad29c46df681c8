from . import node, qos
