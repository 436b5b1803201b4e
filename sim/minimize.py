"""Make a failing scenario smaller while it fails in the same way."""
import json
import time


def size(sc):
    return len(json.dumps(sc))


def minimize(mod, sc, viol, limit=45, ignore=()):
    end = time.time() + limit
    best, bv, tries = sc, viol, 0

    def attempt(c):
        nonlocal best, bv, tries
        if time.time() > end:
            return False
        tries += 1
        try:
            r = mod.execute(c)
        except Exception:
            return False
        if r.viol is not None and r.viol['key'] == viol['key']:
            best, bv = c, r.viol
            return True
        return False
    changed = True
    while changed and time.time() < end:
        changed = False
        for key in ('faults', 'variants', 'history', 'jobs', 'damage'):
            if isinstance(best.get(key), list) and len(best[key]) > 1:
                changed |= ddmin(lambda: best, key, attempt)
        if isinstance(best.get('blocks'), list):
            changed |= ddmin(lambda: best, 'blocks', attempt)
            changed |= lines(lambda: best, attempt)
        changed |= flags(lambda: best, attempt)
        if hasattr(mod, 'simplify'):
            again = True
            while again and time.time() < end:
                again = False
                for c in mod.simplify(best):
                    if attempt(c):
                        again = changed = True
                        break
    return best, bv, tries


def ddmin(cur, key, attempt):
    changed = False
    n = 2
    while len(cur()[key]) > 1:
        items = cur()[key]
        n = min(n, len(items))
        step = -(-len(items) // n)
        hit = False
        for k in range(0, len(items), step):
            rest = items[:k] + items[k + step:]
            if not rest:
                continue
            if attempt(dict(cur(), **{key: rest})):
                hit = changed = True
                break
        if hit:
            n = max(2, n - 1)
        elif step == 1:
            break
        else:
            n = min(len(items), n * 2)
    return changed


def lines(cur, attempt):
    changed = False
    bi = 0
    while bi < len(cur()['blocks']):
        li = len(cur()['blocks'][bi].get('l', ())) - 1
        while li >= 0:
            b = cur()['blocks'][bi]
            if len(b['l']) < 2:
                break
            nb = dict(b, l=b['l'][:li] + b['l'][li + 1:])
            bl = list(cur()['blocks'])
            bl[bi] = nb
            if attempt(dict(cur(), blocks=bl)):
                changed = True
            li -= 1
        bi += 1
    return changed


def flags(cur, attempt):
    changed = False
    f = cur().get('flags')
    if not isinstance(f, dict):
        return False
    for k in ('langs', 'actions'):
        for x in list(cur()['flags'].get(k, [])):
            v = [y for y in cur()['flags'][k] if y != x]
            if v and attempt(dict(cur(), flags=dict(cur()['flags'], **{k: v}))):
                changed = True
    for k in ('compress', 'strict', 'json', 'tiny', 'ignore_large',
              'granularity', 'until_at_granularity', 'offset_granularity',
              'delta_granularity', 'skip', 'include'):
        if k in cur()['flags']:
            g = {a: b for a, b in cur()['flags'].items() if a != k}
            if attempt(dict(cur(), flags=g)):
                changed = True
    return changed
