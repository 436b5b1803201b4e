"""Histories of releases: what maintainers of the source do to it."""
import re

from sim import fleet, tzgen
from sim.rng import rng

KINDS = ['add_zone', 'add_zone', 'add_rules', 'add_link', 'drop_zone',
         'drop_link', 'change_rules', 'change_rules', 'change_zone',
         'change_zone', 'rename_zone', 'zone_to_link', 'shuffle', 'shuffle',
         'move', 'split_rules', 'comment', 'bad_zone', 'use_rules',
         'rotate_rules', 'twin_rules', 'twin_rules', 'twin_zone',
         'twin_zone']


def draw(r, n):
    """Edits of one release, as (kind, seed)."""
    return [[r.choice(KINDS), r.randrange(10 ** 9)] for _ in range(n)]


def target(b):
    return next(x.split()[1] for x in b['l'] if x[:4] == 'Link')


def variant(r, old):
    """A name that resembles another."""
    x = r.randrange(8)
    if x == 0:
        return old + r.choice('+-_')
    if x == 1:
        return old + r.choice(['2', '_x', 'a', '-Old', '+1'])
    if x == 2 and len(old) > 2:
        return old[:-1]
    if x == 3:
        return old.swapcase()
    if x == 4:
        k = r.randrange(len(old))
        return old[:k] + old[k].swapcase() + old[k + 1:]
    if x == 5:
        return old.split('/')[-1] or old
    if x == 6:
        return old.split('/')[0] + '/' + old.split('/')[-1][:1] + 'x'
    k = r.randrange(len(old))
    return old[:k] + r.choice('aqzAQZ') + old[k + 1:]


def apply(blocks, edits, scope):
    bl = [dict(b, l=list(b['l'])) for b in blocks]
    for kind, seed in edits:
        r = rng('edit', kind, seed)
        zones = [b for b in bl if b['k'] == 'zone']
        pols = [b for b in bl if b['k'] == 'policy']
        links = [b for b in bl if b['k'] == 'link']
        new = tzgen.Gen(r, scope=scope, **RANGE[scope])
        for b in zones + links:
            new.norm.add(norm(b['n']))

        def name():
            n = r.choice(zones + links)['n'] if zones else 'Etc/Aa'
            for _ in range(4):
                v = variant(r, n)
                if not re.fullmatch('[A-Za-z][A-Za-z0-9_+-]*(/[A-Za-z]'
                                    '[A-Za-z0-9_+-]*)*', v) or \
                        norm(v) in new.norm:
                    continue
                new.norm.add(norm(v))
                return v
            return new.name()

        def insert(b):
            bl.insert(r.randint(0, len(bl)), b)
        if kind in ('add_zone', 'bad_zone'):
            n = name() if r.random() < 0.5 else new.name()
            b = {'f': r.choice(tzgen.FILES), 'k': 'zone', 'n': n,
                 'l': new.zone(n, [p['n'] for p in pols])}
            if kind == 'bad_zone':      # one that cannot be held
                fleet.twist(r, [b], 4, scope)
            insert(b)
        elif kind == 'add_rules':
            n = r.choice(['New', 'Alt', 'X_y', 'Zz-top', 'Aa'])
            if pols and r.random() < 0.6:
                n = variant(r, r.choice(pols)['n'])
            if any(norm(p['n']) == norm(n) for p in pols) or \
                    not re.fullmatch('[A-Za-z][A-Za-z0-9_+-]*', n):
                continue
            ls = new.policy(n)
            if pols and r.random() < 0.5:   # a copy with another name
                o = r.choice(pols)
                ls = [re.sub(r'^(Rule\s+)\S+', lambda m: m[1] + n, x)
                      for x in o['l']]
            insert({'f': r.choice(tzgen.FILES), 'k': 'policy', 'n': n,
                    'l': ls})
            if zones and r.random() < 0.5:
                z = name()
                insert({'f': r.choice(tzgen.FILES), 'k': 'zone', 'n': z,
                        'l': ['Zone\t%s\t%d:00\t%s\tX%%sT' % (
                            z, r.randint(-9, 9), n)]})
        elif kind == 'twin_rules' and pols:
            # the rules of another set, under a name that resembles it
            o = r.choice(pols)
            n = variant(r, o['n'])
            if any(norm(p['n']) == norm(n) for p in pols) or \
                    not re.fullmatch('[A-Za-z][A-Za-z0-9_+-]*', n):
                continue
            ls = [re.sub(r'^(Rule\s+)\S+', lambda m: m[1] + n, x)
                  for p in pols if p['n'] == o['n'] for x in p['l']]
            if r.random() < 0.3:
                ls = ls[r.randrange(len(ls)):]
            insert({'f': r.choice(tzgen.FILES), 'k': 'policy', 'n': n,
                    'l': ls})
            z = name()
            insert({'f': r.choice(tzgen.FILES), 'k': 'zone', 'n': z,
                    'l': ['Zone\t%s\t%d:00\t%s\tX%%sT' % (
                        z, r.randint(-9, 9), n)]})
        elif kind == 'twin_zone' and zones:
            o = r.choice(zones)
            n = name()
            insert({'f': r.choice(tzgen.FILES), 'k': 'zone', 'n': n,
                    'l': [re.sub(r'^(Zone\s+)\S+', lambda m: m[1] + n, x)
                          for x in o['l']]})
        elif kind == 'add_link' and zones:
            n = name() if r.random() < 0.5 else new.name()
            insert({'f': r.choice(['backward'] * 3 + tzgen.FILES),
                    'k': 'link', 'n': n,
                    'l': ['Link\t%s\t%s' % (r.choice(zones)['n'], n)]})
        elif kind == 'drop_zone' and len(zones) > 1:
            z = r.choice(zones)
            bl = [b for b in bl if b is not z and not (
                b['k'] == 'link' and target(b) == z['n'])]
        elif kind == 'drop_link' and links:
            z = r.choice(links)
            bl = [b for b in bl if b is not z]
        elif kind == 'change_rules' and pols:
            p = r.choice(pols)
            if r.random() < 0.5:
                p['l'] = new.policy(p['n'])
            else:
                fleet.twist(r, [p], r.choice([1, 2]), scope)
        elif kind == 'change_zone' and zones:
            z = r.choice(zones)
            if r.random() < 0.5:
                z['l'] = new.zone(z['n'], [p['n'] for p in pols])
            else:
                fleet.twist(r, [z], r.choice([1, 2]), scope)
        elif kind == 'use_rules' and zones and pols:
            z = r.choice(zones)
            t = z['l'][-1].split('#')[0].split()
            if not t:
                continue
            o = 2 if t[0] == 'Zone' else 0
            if len(t) == o + 3:
                t[o + 1], t[o + 2] = r.choice(pols)['n'], r.choice(
                    ['A%sT', 'XX/YY', '%z'])
                z['l'][-1] = ('' if o else '\t\t\t') + '\t'.join(t)
        elif kind == 'rename_zone' and zones:
            z = r.choice(zones)
            n = name() if r.random() < 0.5 else new.name()
            for b in links:
                if target(b) == z['n']:
                    b['l'] = ['Link\t%s\t%s' % (n, b['n'])]
            z['l'] = [x.replace(z['n'], n, 1) if x[:4] == 'Zone' else x
                      for x in z['l']]
            old, z['n'] = z['n'], n
            if r.random() < 0.5:
                insert({'f': 'backward', 'k': 'link', 'n': old,
                        'l': ['Link\t%s\t%s' % (n, old)]})
        elif kind == 'zone_to_link' and len(zones) > 1:
            z, o = r.sample(zones, 2)
            for b in links:
                if target(b) == z['n']:
                    b['l'] = ['Link\t%s\t%s' % (o['n'], b['n'])]
            bl = [b for b in bl if b is not z]
            insert({'f': 'backward', 'k': 'link', 'n': z['n'],
                    'l': ['Link\t%s\t%s' % (o['n'], z['n'])]})
        elif kind == 'shuffle':
            r.shuffle(bl)
        elif kind == 'move' and bl:
            for b in r.sample(bl, min(len(bl), 3)):
                b['f'] = r.choice(tzgen.FILES)
        elif kind == 'split_rules' and pols:
            # the lines of one rule set in two places, order kept
            p = r.choice(pols)
            k = r.randint(0, len(p['l']))
            i = next(j for j, b in enumerate(bl) if b is p)
            bl.insert(i + 1, dict(p, l=p['l'][k:]))
            p['l'] = p['l'][:k]
            bl = [b for b in bl if b['l']]
        elif kind == 'rotate_rules' and pols:
            p = r.choice(pols)
            k = r.randint(0, len(p['l']))
            p['l'] = p['l'][k:] + p['l'][:k]
        elif kind == 'comment' and bl:
            b = r.choice(bl)
            b['l'] = ['# release notes'] + b['l'] + ['']
    return bl


RANGE = {'basic': {'lo': 1985, 'hi': 2080}, 'extended': {
    'lo': 1960, 'hi': 2080}, 'complete': {'lo': 1850, 'hi': 2090}}


def norm(n):
    return ''.join(c if c.isalnum() else '_'
                   for c in n.replace('+', '_PLUS_'))
