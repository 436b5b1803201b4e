"""C24: every run ends, after work in proportion to its input."""
import random

from sim import core, scene, tzgen
from sim.engine import Result

ID = 'C24'
COUNTS = {'quick': 420, 'thorough': 9000}
META = {
    'rule': 'Each scenario draws a source tree, flags and a window of years, '
            'and either puts monstrous lines into it (fields, gaps, names '
            'and numbers of thousands of characters, thousands of blank '
            'lines, comments, continuation lines, duplicates, links that go '
            'in circles or in long chains, unbalanced quotes, NUL bytes, a '
            'file without an end of line), piles up to 640 rules, eras, links or '
            'other lines about one name, or grows it by renamed copies, '
            'fourfold up to three times. Runs are cut into tiny transfers, fail, are '
            'killed at operations and at source lines, and are then left '
            'alone. The simulator counts file operations and executed source '
            'lines: every run must end within a bound in proportion to its '
            'input, four times the source may not take much more than four '
            'times the steps, and once faults stop the next run must end '
            'with the status and about the steps of a run that never saw '
            'one. Distinct counts the different (kind, scope, languages, '
            'size, outcome) seen.',
    'states': 'distinct (kind, scope, languages, size of the source to a '
              'power of two, exit status)',
    'assumptions': ['executed source lines and file operations measure the '
                    'work of the code; time spent inside one line is limited '
                    'by a generous limit of processor time'],
}
KINDS = ['hostile', 'hostile', 'grow', 'recover', 'tiny', 'deep']


def gen(r, i, tier):
    kind = KINDS[i % len(KINDS)]
    scope = r.choice(['complete', 'extended', 'basic'])
    langs = r.choice([['python'], ['go'], ['c'], ['arduino'],
                      ['python', 'go', 'c']])
    f = tzgen.gen_flags(r, scope=scope, langs=list(langs),
                        actions=['zonedb', 'json', 'zonelist'])
    f.pop('json', None)
    f.pop('skip', None)
    if scope == 'complete' and r.random() < 0.5:
        f['start'], f['until'] = r.choice([(1, 10000), (1800, 2200), (1, 2),
                                           (9998, 10000)])
    sc = {'kind': kind, 'flags': f}
    if r.random() < 0.3:
        sc['blocks'] = tzgen.corpus_sample(r, nz=r.choice([3, 8]), nlinks=3)
    else:
        sc['blocks'] = tzgen.gen_tree(r, scope=scope, nz=r.randint(1, 8),
                                      npol=r.randint(0, 4),
                                      nlinks=r.randint(0, 4))
    if kind == 'hostile':
        sc['odd'] = [[r.choice(ODD), r.randrange(10 ** 9)]
                     for _ in range(r.choice([1, 1, 2, 4]))]
    if kind == 'deep':
        # C and C++ take 255 rules or eras
        f['langs'] = r.choice([['python'], ['go'], ['python', 'go']])
        f['scope'] = r.choice(['complete', 'extended'])
        f['start'], f['until'] = r.choice([(1980, 2100), (2000, 2050)])
        sc['deep'] = [r.choice(DEEP), r.randrange(10 ** 9)]
    if kind == 'recover':
        sc['faults'] = [[
            {'line': int(r.random() ** 2 * 60000), 'do': r.choice(
                ['crash', 'interrupt', 'memory', 'term'])}
            if r.random() < 0.5 else
            {'at': r.randrange(140), 'do': r.choice(
                ['EIO', 'ENOSPC', 'ENOMEM', 'crash', 'crash_after',
                 'EAGAIN', 'interrupt'])}] for _ in range(r.randint(1, 3))]
        if r.random() < 0.6:
            # a disk that stays bad
            sc['faults'].insert(r.randrange(len(sc['faults']) + 1), {
                'faults': [{'at': r.randrange(r.choice([20, 140])),
                            'do': r.choice(['EIO', 'EIO', 'ENOSPC', 'ENOMEM',
                                            'EAGAIN', 'EINTR'])}],
                'sticky': True})
    if kind == 'tiny':
        sc['short'] = [r.randrange(10 ** 6), r.choice([.5, .9, 1]),
                       r.choice([.5, .9, 1])]
    return sc


def _rep(r, s, lo=200, hi=60000):
    return s * r.randint(lo // len(s) + 1, hi // len(s) + 2)


def odd_lines(how, r, names):
    """Lines that are hard to swallow."""
    n = r.choice(names)
    big = r.choice([50, 500, 4000])
    if how == 'long_field':
        x = _rep(r, r.choice(['a', 'Ab', '1', '%s', '/', '-', ':', '0', '+',
                              '>=', 'é']))
        k = r.randrange(10)
        t = r.choice([
            'Rule P 1990 2000 - Mar lastSun 2:00 1:00 S'.split(),
            ('Zone %s/Long 1:00 - XXX 1990 Mar Sun>=1 2:00s' % n).split(),
            ('Link %s Alias/Of' % n).split()])
        t[k % len(t)] = x
        return ['\t'.join(t)]
    if how == 'many_fields':
        return ['%s\t%s' % (r.choice(['Rule', 'Zone', 'Link', '\t', 'x']),
                            '\t'.join(['1'] * r.choice([20, 3000, 20000])))]
    if how == 'gap':
        return ['Zone' + _rep(r, r.choice([' ', '\t', ' \t']))
                + 'Etc/Gap1\t1:00\t-\tGAP' + _rep(r, ' ')]
    if how == 'blanks':
        return [r.choice(['', '#', '   ', '# Zone Europe/No 1:00 - X'])] * big
    if how == 'continuations':
        return ['Zone\tEtc/Deep\t1:00\t-\tDEEP\t1900'] + [
            '\t\t\t%d:00\t-\tD%d\t%d' % (k % 9, k % 7, 1901 + k)
            for k in range(min(big, 4000))]
    if how == 'orphans':
        return ['\t\t\t1:00\t-\tORP\t%d' % (1900 + k % 100)
                for k in range(big)]
    if how == 'duplicates':
        return ['Link\t%s\tEtc/Same' % n] * min(big, 500)
    if how == 'twins':
        return ['Zone\tEtc/Twin\t1:00\t-\tTW'] * min(big, 500)
    if how == 'circle':
        k = r.choice([1, 2, 3, 50])
        return ['Link\tC/A%d\tC/A%d' % ((j + 1) % k, j) for j in range(k)]
    if how == 'chain':
        k = r.choice([2, 30, 400])
        return ['Link\t%s\tC/A0' % n] + [
            'Link\tC/A%d\tC/A%d' % (j, j + 1) for j in range(k)]
    if how == 'years':
        return ['Rule\tWide\t%s\t%s\t-\tMar\tlastSun\t2:00\t%d\t-' % (
            a, b, k % 2) for k, (a, b) in enumerate(
                [('1', '9999'), ('1', 'max'), ('1800', '9998'),
                 ('9999', 'max'), ('1', 'only')])] + [
            'Zone\tEtc/Wide\t1:00\tWide\tW%sT']
    if how == 'number':
        x = _rep(r, r.choice(['9', '0', '1']))
        return [r.choice([
            'Rule\tNum\t%s\tmax\t-\tMar\t1\t2:00\t0\t-',
            'Rule\tNum\t1990\tmax\t-\tMar\t%s\t2:00\t0\t-',
            'Rule\tNum\t1990\tmax\t-\tMar\t1\t%s:00\t0\t-',
            'Rule\tNum\t1990\tmax\t-\tMar\tSun>=%s\t2:00\t0\t-',
            'Zone\tEtc/Num\t%s\t-\tNUM', 'Zone\tEtc/Num\t1:%s\t-\tNUM',
            'Zone\tEtc/Num\t1:00\t-\tNUM\t%s']) % x]
    if how == 'quotes':
        return ['Zone\tEtc/"Quote\t1:00\t-\t"Q' + _rep(r, '"\\')]
    if how == 'nul':
        return ['\0' * r.choice([1, 512, 4096]) + 'Zone\tEtc/Nul\t1\t-\tN']
    if how == 'slashes':
        return ['Zone\t%s\t1:00\t-\tSL' % '/'.join(
            ['Abcd'] * r.choice([10, 300, 3000]))]
    if how == 'rules':
        return ['Rule\tMany\t%d\t%d\t-\t%s\t%d\t2:00\t%s\tD' % (
            1950 + k % 90, 1950 + k % 90, ['Jan', 'Apr', 'Sep'][k % 3],
            1 + k % 28, ['1:00', '0'][k % 2]) for k in range(
                min(big, 1500))] + ['Zone\tEtc/Many\t1:00\tMany\tM%sT']
    return ['Zone\tEtc/Dash' + '-' * big + '\t1:00\t-\tDA']


ODD = ['long_field', 'long_field', 'many_fields', 'gap', 'blanks',
       'continuations', 'orphans', 'duplicates', 'twins', 'circle', 'chain',
       'years', 'number', 'number', 'quotes', 'nul', 'slashes', 'rules',
       'dash']


def copies(bl, n):
    """n renamed copies of the blocks."""
    kinds = {b['n']: b['k'] for b in bl}
    out = []
    for c in range(n):
        s = '_' + chr(97 + c // 8) + chr(97 + c % 8)

        def zone(x):
            return x + s if kinds.get(x) in ('zone', 'link') else x

        def rule(x):
            return x + s if kinds.get(x) == 'policy' else x
        for b in bl:
            ls, first = [], True
            for x in b['l']:
                t = x.split('#')[0].split()
                if not t:
                    continue
                if b['k'] == 'policy':
                    t[1] = rule(t[1])
                elif b['k'] == 'link':
                    t[1], t[2] = zone(t[1]), zone(t[2])
                elif first:
                    t[1] = zone(t[1])
                    if len(t) > 3:
                        t[3] = rule(t[3])
                else:
                    if len(t) > 1:
                        t[1] = rule(t[1])
                    t.insert(0, '\t')
                first = False
                ls.append('\t'.join(t))
            out.append(dict(b, n=b['n'] + s, l=ls))
    return out


DEEP = ['rules', 'eras', 'links', 'comments', 'lines', 'formats', 'letters']


def pile(how, seed, n):
    """n more lines of one kind, all about one name where possible."""
    r = random.Random(seed)
    if how == 'rules':
        y = r.choice([1985, 2000])
        return ['Rule\tDeep\t%d\tonly\t-\t%s\t%d\t2:00\t%s\tS' % (
            y + k % 30, tzgen.MONTHS[k // 30 % 12], 1 + k // 360 * 2,
            ['1:00', '0'][k % 2]) for k in range(n)] + [
                'Zone\tEtc/Deep\t1:00\tDeep\tD%sT']
    if how == 'eras':
        y = r.choice([1985, 2001])
        return ['%s\t%d:00\t-\tD%d\t%d %s %d' % (
            '\t\t' if k else 'Zone\tEtc/Deep', k % 9, k % 7,
            y + k // 48, tzgen.MONTHS[k // 4 % 12], 1 + k % 4 * 7)
            for k in range(n)] + ['\t\t\t1:00\t-\tDE']
    if how == 'links':
        return ['Zone\tEtc/Deep\t1:00\t-\tDE'] + [
            'Link\tEtc/Deep\tEtc/Deep%d' % k for k in range(n)]
    if how == 'comments':
        return [r.choice(['# %d' % k, '', '   ', '\t# x']) for k in range(n)]
    if how == 'lines':
        return [r.choice(['Zone', 'Rule', 'x', 'Leap\t1', '\t\t1:00'])[:1]
                + 'unknown %d' % k for k in range(n)]
    if how == 'formats':
        return ['Zone\tEtc/Deep%d\t1:00\t-\tF%s' % (k, ''.join(
            chr(65 + k // 26 ** j % 26) for j in range(3)))
            for k in range(n)]
    return ['Rule\tDeep%d\t%d\tonly\t-\tMar\t1\t2:00\t1:00\t%s' % (
        k, 2005 + k % 9, 'S') for k in range(min(n, 200))] + [
            'Zone\tEtc/Deep%d\t1:00\tDeep%d\tD%%sT' % (k, k)
            for k in range(min(n, 200))]


def deep(res, sc, where):
    how, seed = sc['deep']
    files = tzgen.render(sc['blocks'])
    last = base = None
    for n in (0, 40, 160, 640):
        put = dict(files)
        put['etcetera'] = '\n'.join(pile(how, seed, n) if n else []) + \
            '\n' + put['etcetera']
        w = core.World()
        try:
            w.put('out/.keep', '')
            o = once(w, res, sc, None, put=put)
        finally:
            w.close()
        bad = over(o, None)
        if bad:
            res.violation('endless', '%d %s: %s; %s' % (n, how, bad, where))
            return
        res.mix(o['lines'])
        now = (o['lines'], o['nops'], o.get('exit'))
        if n == 0:
            base = now
            continue
        if last and last[2] == now[2] == base[2]:
            res.count('growths_compared')
            res.count('deep_' + how)
            for k, what in ((0, 'source lines'), (1, 'file operations')):
                a, b = last[k] - base[k], now[k] - base[k]
                if b > 5 * a + (8000, 30)[k]:
                    res.violation('growth', 'four times the %s took %.1f '
                                  'times the %s (%d / %d); %s' % (
                                      how, b / max(1, a), what, b, a, where))
                    return
        last = now


def steps_for(files):
    """The bound: several times what sources of every kind take."""
    n = sum(t.count('\n') + 1 for t in files.values())
    size = sum(map(len, files.values()))
    return 8000000 + 60000 * n + 10 * size


def once(w, res, sc, bl, plan=None, put=None):
    """Compile blocks in a fresh directory, or over what is there."""
    if put is not None:
        for n, t in put.items():
            w.put('in/' + n, t)
    plan = dict(plan or {}, steps=steps_for(put or tzgen.render(bl)))
    o = core.compile_run(w, scene.args(sc), core.Plan.of(plan), trace=True,
                         cpu=30, keep_log=False)
    res.run(o)
    return o


def over(o, plan):
    """The run did not end by itself."""
    if o.get('died'):
        return 'the run used up its processor time (%s)' % o['died']
    if 'out_of_steps' in (o.get('fired') or {}):
        return 'the run did not end after %d source lines' % o['lines']
    return None


def execute(sc):
    res = Result()
    w = core.World()
    f, kind = sc['flags'], sc['kind']
    try:
        w.put('out/.keep', '')
        files = tzgen.render(sc['blocks'])
        where = ' '.join(scene.args(sc))
        if kind == 'hostile':
            names = [b['n'] for b in sc['blocks']]
            for how, seed in sc['odd']:
                r = random.Random(seed)
                n = r.choice(tzgen.FILES)
                ls = files[n].split('\n')
                k = r.randrange(len(ls) + 1)
                ls[k:k] = odd_lines(how, r, names)
                files[n] = '\n'.join(ls)
                if r.random() < 0.3:
                    files[n] = files[n].rstrip('\n')
        size = sum(map(len, files.values())).bit_length()
        o = once(w, res, sc, None, {'short': sc.get('short')}, put=files)
        res.saw(kind, f['scope'], sorted(f['langs']), size, o.get('exit'))
        res.count('%s_%s' % (kind, 'accepted' if o.get('exit') == 0
                             else 'refused'))
        bad = over(o, None)
        if bad:
            res.violation('endless', '%s; %s %s' % (
                bad, [x[0] for x in sc.get('odd', [])], where))
            return res
        for how, _ in sc.get('odd', []):
            res.fired[how] = res.fired.get(how, 0) + 1
        res.mix(o['lines'], o['nops'])
        if kind == 'tiny':
            # every transfer moves at least one byte
            out = sum(map(len, scene.files(w.snap('out')).values()))
            total = sum(len(t.encode()) for t in files.values()) + out
            if o['nops'] > 4 * total + 400:
                res.violation('operations', '%d file operations for %d '
                              'bytes; %s' % (o['nops'], total, where))
        elif kind == 'grow':
            grow(res, sc, o, where)
        elif kind == 'deep':
            deep(res, sc, where)
        elif kind == 'recover':
            base = (o['exit'], o['lines'], o['nops'])
            for plan in sc['faults']:
                o = once(w, res, sc, None, plan if isinstance(plan, dict) else
                         {'faults': plan}, put=files)
                bad = over(o, plan)
                if bad:
                    res.violation('endless', '%s after %s; %s' % (
                        bad, plan, where))
                    return res
            o = once(w, res, sc, None, put=files)
            now = (o.get('exit'), o.get('lines'), o.get('nops'))
            if now[0] != base[0] or now[1] > base[1] * 1.2 + 2000 or (
                    now[2] > base[2] * 1.2 + 40):
                res.violation('recovery', 'after %s a run took %s (status, '
                              'source lines, operations), before %s; %s' % (
                                  sc['faults'], now, base, where))
    finally:
        w.close()
    return res


def grow(res, sc, first, where):
    """Steps may grow about as the source does."""
    last = (first['lines'], first['nops'], first.get('exit'))
    for n, most in ((4, 5), (16, 4.7), (64, 4.5)):
        if last[0] > 1200000:
            return
        bl = copies(sc['blocks'], n)
        w = core.World()
        try:
            w.put('out/.keep', '')
            o = once(w, res, sc, bl, put=tzgen.render(bl))
        finally:
            w.close()
        bad = over(o, None)
        if bad:
            res.violation('endless', '%d copies: %s; %s' % (n, bad, where))
            return
        res.mix(o['lines'])
        now = (o['lines'], o['nops'], o.get('exit'))
        if last[2] == now[2]:
            res.count('growths_compared')
            # four times the source
            for k, what in ((0, 'source lines'), (1, 'file operations')):
                if now[k] > most * last[k] + (2000, 20)[k]:
                    res.violation('growth', 'four times the source took %.1f '
                                  'times the %s (%d / %d); %s' % (
                                      now[k] / last[k], what, now[k],
                                      last[k], where))
                    return
        last = now


def simplify(sc):
    for key in ('odd', 'faults'):
        x = sc.get(key) or []
        for k in range(len(x)):
            if len(x) > 1:
                yield dict(sc, **{key: x[:k] + x[k + 1:]})
    bl = sc['blocks']
    for k in range(len(bl)):
        if len(bl) > 1:
            yield dict(sc, blocks=bl[:k] + bl[k + 1:])
