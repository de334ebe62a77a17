"""Simulated network shared by the tcp and http stand-ins.

Time is the virtual tyme of whichever Doist drives the endpoints (NET.now() is
injected by the simulator).  Policy hooks decide delay/loss."""
from collections import deque


class Net:
    def __init__(self):
        self.reset()

    def reset(self):
        self.https = {}      # port -> http Server
        self.tcps = {}       # port -> tcp Server
        self.now = lambda: 0.0
        self.policy = None   # callable(kind, info) -> dict(drop=bool, delay=float, reset=bool)
        self.ports = 50000
        self.stats = {}

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def decide(self, kind, **info):
        if self.policy is None:
            return {}
        return self.policy(kind, info) or {}


NET = Net()
