"""A scripted peer standing in for acetimepy's ZoneProcessor.

By default it answers with a deterministic, zone-dependent estimate derived
from the records it is given.  A simulation may install a `Script` in SCRIPT
to decide every answer, and every failure, of the peer."""
from typing import Any, NamedTuple, Optional


class BufferSizeInfo(NamedTuple):
    active_size: int
    buffer_size: int


class Script:
    """Decides the answers of the peer; CALLS records every question."""

    def __init__(self, sizes=None, terminal=None, fail=None):
        self.sizes = sizes or {}        # zone -> {year: (active, buffer)}
        self.terminal = terminal or {}  # zone -> first terminal year
        self.fail = fail                # (zone, method, nth call, exception)
        self.calls = []                 # (zone, method, year)
        self.infos = {}                 # zone -> record as handed over
        self.counts = {}

    def hit(self, zone, method, year):
        self.calls.append((zone, method, year))
        if self.fail and self.fail[0] == zone and self.fail[1] == method:
            n = self.counts.get((zone, method), 0)
            self.counts[(zone, method)] = n + 1
            if n == self.fail[2]:
                raise self.fail[3]


SCRIPT: Optional[Script] = None


class ZoneProcessor:
    def __init__(self, zone_info: Any, *args: Any, **kwargs: Any) -> None:
        self.zone_info = zone_info
        self.name = zone_info['name']
        self.year = 0
        if SCRIPT is not None:
            SCRIPT.hit(self.name, 'init', 0)
            SCRIPT.infos[self.name] = zone_info

    def init_for_year(self, year: int) -> None:
        if SCRIPT is not None:
            SCRIPT.hit(self.name, 'init_for_year', year)
        self.year = year

    def get_buffer_sizes(self) -> BufferSizeInfo:
        if SCRIPT is not None:
            SCRIPT.hit(self.name, 'get_buffer_sizes', self.year)
            per = SCRIPT.sizes.get(self.name, {})
            a, b = per.get(self.year, per.get('default', (1, 1)))
            return BufferSizeInfo(a, b)
        n = 1
        for era in self.zone_info['eras']:
            if abs(era['until_year'] - self.year) <= 1:
                n += 1
            policy = era['zone_policy']
            if policy and era['until_year'] >= self.year - 1:
                for rule in policy['rules']:
                    if rule['from_year'] <= self.year + 1 and \
                            rule['to_year'] >= self.year - 1:
                        n += 1
                break
        n = min(n, 8)
        return BufferSizeInfo(max(1, n - 1), n)

    def is_terminal_year(self, year: int) -> bool:
        if SCRIPT is not None:
            SCRIPT.hit(self.name, 'is_terminal_year', year)
            t = SCRIPT.terminal.get(self.name)
            return t is not None and year >= t
        last = self.zone_info['eras'][-1]
        for era in self.zone_info['eras'][:-1]:
            if era['until_year'] >= year:
                return False
        policy = last['zone_policy']
        if policy:
            for rule in policy['rules']:
                if rule['from_year'] > year:
                    return False
                if rule['to_year'] > year and rule['to_year'] < 30000:
                    return False
        return True
