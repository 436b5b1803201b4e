#!/opt/venv/bin/python
"""Setup: check that the tools the simulator needs are there.  It judges
nothing about /repo, so it passes on every tree."""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import datetime  # noqa: E402
import random  # noqa: E402
import zoneinfo  # noqa: E402
from sim import (  # noqa: E402,F401
    core, decode, engine, fleet, minimize, model, scene, tzgen, ztime)


def reference():
    """Compare the reference interpreter of C15 with the system's compiled
    zoneinfo of the same release.  Returns (instants, differences)."""
    m = model.Model({k: v.encode() for k, v in
                     tzgen.render(tzgen.corpus_blocks()).items()})
    pol = {n: ztime.Rules([ztime.source_rule(r) for r in rs], 1800, 2250)
           for n, rs in m.policies.items()}
    utc = datetime.timezone.utc
    epoch = datetime.datetime(1970, 1, 1, tzinfo=utc)
    r = random.Random(1)
    asked = wrong = 0
    for n, es in sorted(m.zones.items()):
        c = ztime.Clock([ztime.source_era(e) for e in es], pol, 1800, 2250)
        try:
            z = zoneinfo.ZoneInfo(n)
        except Exception:
            continue
        ts = [r.randint(-3 * 10 ** 9, 2 * 10 ** 9) for _ in range(20)]
        for t in c.changes(ztime.days(1850, 1, 1) * 86400,
                           ztime.days(2037, 1, 1) * 86400):
            ts += [t - 1, t, t + 1]
        for t in ts:
            d = (epoch + datetime.timedelta(seconds=t)).astimezone(z)
            off, _, name = c.at(t)
            asked += 1
            wrong += (d.utcoffset().total_seconds(), d.tzname()) != (off,
                                                                     name)
    return asked, wrong


w = core.World()
w.put('a/b', 'x')
assert w.snap()['a/b'] == b'x'
assert core.in_child(lambda emit: {'v': 1})['v'] == 1
assert len(tzgen.corpus_blocks()) > 100
core.drop_scratch()
print('reference interpreter: %d instants, %d differ from the system zoneinfo'
      % reference())
print('ready')
