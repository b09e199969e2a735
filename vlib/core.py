"""What a property module provides and how a verdict is represented."""
import collections
import glob
import json
import os

REGRESS = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..',
                       'regress')


class Verdict(object):
    """Outcome of one case"""

    def __init__(self):
        self.fails = []          # descriptions of violations
        self.known = []          # (finding id, description)
        self.cls = collections.Counter()
        self.nontrivial = False
        self.units = 0           # steps / calls looked at

    def fail(self, msg):
        if len(self.fails) < 20:
            self.fails.append(msg)

    def seen(self, name, n=1):
        self.cls[name] += n


class Prop(object):
    id = None
    rule = ''
    # generated cases per shard (8 shards)
    quick = 100
    thorough = 1500
    assumptions = []

    def strategy(self):
        raise NotImplementedError

    def check(self, case):
        """-> Verdict"""
        raise NotImplementedError

    def regressions(self):
        """fixed cases that run before the search: [(name, case)]"""
        out = []
        for p in sorted(glob.glob(os.path.join(REGRESS, self.id + '-*.json'))):
            with open(p) as f:
                out.append((os.path.basename(p)[:-5], json.load(f)['case']))
        return out

    def sample(self, case, v):
        return case


def short(x, n=6):
    try:
        return ('%%.%dg' % n) % x
    except TypeError:
        return str(x)
