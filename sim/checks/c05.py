"""C05: a failed or killed run leaves every output old or complete."""
import os

from sim import core, scene, tzgen
from sim.checks import c01
from sim.engine import Result

ID = 'C05'
COUNTS = {'quick': 480, 'thorough': 14000}
META = {
    'rule': 'Each scenario fills an output directory (an earlier run with '
            'other input or flags, or arbitrary contents), then runs the '
            'compiler once per drawn plan on a fresh copy of it: killed at, '
            'after or inside a file operation, killed at a source line, a '
            'failing operation, a full disk, an interrupt, or input that must '
            'be rejected (missing, unreadable, undecodable, a year range or '
            'zone list that cannot be honoured, a failing peer). Distinct '
            'counts the different (fault, file being written, state of every '
            'output afterwards) seen.',
    'states': 'distinct (fault kind, per output: old/new/torn/absent)',
    'assumptions': ['a killed process loses what it had not yet handed to the '
                    'system and keeps what it had',
                    'writes reach the disk in the order they were issued'],
}
REJECT = ['missing', 'undecodable', 'isdir', 'include', 'years', 'peer',
          'oversize', 'readerror', 'badzone', 'odd', 'odd', 'odd', 'odd']


def gen(r, i, tier):
    sc = scene.gen_base(r, big=0.08)
    sc['bufsize'] = r.choice([128, 512, 1024, 8192])
    if r.random() < 0.6:
        old = scene.gen_base(r, scope=sc['flags']['scope'],
                             langs=sc['flags']['langs'],
                             actions=sc['flags']['actions'], big=0.08)
        old['flags']['json'] = sc['flags'].get('json')
        sc['old'] = {'blocks': old['blocks'], 'flags': old['flags']}
    else:
        sc['old'] = {'fill': r.randrange(1 << 30),
                     'rate': r.choice([0.5, 1.0])}
    n = 10 if tier == 'quick' else 14
    fs = []
    for _ in range(n):
        x = r.random()
        if x < 0.45:
            f = {'kind': 'crash', 'pos': r.random(),
                 'do': r.choice(['crash', 'crash_after', 'part']),
                 'frac': r.random(), 'out': r.random() < 0.85}
        elif x < 0.55 and i % 3 == 0:
            f = {'kind': 'line', 'pos': r.random(), 'early': False,
                 'do': r.choice(['crash', 'crash', 'interrupt', 'memory',
                                 'term'])}
        elif x < 0.68:
            f = {'kind': 'error', 'pos': r.random(), 'pick': r.random(),
                 'out': True}
            if r.random() < 0.5:
                f['part'] = r.choice([1, 50, 3000])
        elif x < 0.76:
            f = {'kind': 'disk', 'pos': r.random()}
        elif x < 0.82:
            f = {'kind': r.choice(['interrupt', 'memory']), 'pos': r.random()}
        else:
            f = {'kind': 'reject', 'how': r.choice(REJECT),
                 'pick': r.random()}
        fs.append(f)
    sc['faults'] = fs
    return sc


def odd_lines(r):
    """Lines that can be read, but that some later stage may have to refuse.

    What the names, numbers and tables of a target can hold differs from
    target to target, so a refusal may come late."""
    k = r.choice(['eradelta', 'save', 'stdoff', 'until', 'at', 'letter',
                  'format', 'twins', 'policytwins', 'many', 'collide',
                  'link', 'digits', 'nostd', 'formatcombo', 'manyletters'])
    odd = r.choice(['3:00', '-2:00', '2:08', '0:07', '4:00', '-1:15',
                    '0:00:30', '24:00', '100:00'])
    zone = 'Zone\tEtc/Odd\t%s\t%s\t%s%s\n'
    rules = 'Rule\t%s\t1990\tmax\t-\tApr\tSun>=1\t%s\t%s\t%s\n' \
        'Rule\t%s\t1990\tmax\t-\tOct\tlastSun\t2:00\t0\t%s\n'
    if k == 'eradelta':
        return zone % ('1:00', odd, 'ODD', '')
    if k == 'save':
        return rules % ('Odd', '2:00', odd, 'S', 'Odd', '-') + \
            zone % ('1:00', 'Odd', 'O%sD', '')
    if k == 'stdoff':
        return zone % (r.choice(['40:00', '-40:00', '18:00:07', '25:00',
                                 '200:00', '-33:00']), '-', 'ODD', '')
    if k == 'until':
        return zone % ('1:00', '-', 'ODD', '\t2010 Mar %s %s%s\n\t\t\t2:00\t-'
                       '\tEVN' % (r.choice(['1', '31', 'lastSun', 'Sun>=30']),
                                  r.choice(['25:00', '30:00', '2:07', '99:00',
                                            '2:00:30', '300:00']),
                                  r.choice(['', 'u', 's'])))
    if k == 'at':
        return rules % ('Odd', r.choice(['25:00', '30:00', '99:00', '2:00:30',
                                         '300:00', '-1:00']), '1:00', 'S',
                        'Odd', '-') + zone % ('1:00', 'Odd', 'O%sD', '')
    if k == 'letter':
        return rules % ('Odd', '2:00', '1:00', 'L' * r.choice([9, 60, 300]),
                        'Odd', '-') + zone % ('1:00', 'Odd', 'O%sD', '')
    if k == 'format':
        return zone % ('1:00', '-', 'F' * r.choice([20, 300, 70000]), '')
    if k == 'twins':
        return zone.replace('Odd', 'A-B') % ('1:00', '-', 'AAA', '') + \
            zone.replace('Odd', 'A_B') % ('2:00', '-', 'BBB', '')
    if k == 'policytwins':
        return rules % ('A-B', '2:00', '1:00', 'S', 'A-B', '-') + \
            rules % ('A_B', '3:00', '1:00', 'D', 'A_B', '-') + \
            zone % ('1:00', 'A-B', 'A%sA', '') + \
            zone.replace('Odd', 'Odd2') % ('1:00', 'A_B', 'B%sB', '')
    if k == 'many':
        return ''.join(
            rules % ('P%d' % n, '2:00', '1:00', 'S', 'P%d' % n, '-')
            + zone.replace('Odd', 'Odd%d' % n) % ('1:00', 'P%d' % n,
                                                  'A%sA', '')
            for n in range(r.choice([130, 254, 255, 256, 300])))
    if k == 'manyletters':
        return ''.join(
            rules % ('P%d' % (n // 40), '2:00', '1:00', 'S%d' % n,
                     'P%d' % (n // 40), '-') for n in range(280)) + ''.join(
            zone.replace('Odd', 'Odd%d' % n) % ('1:00', 'P%d' % n, 'A%sA', '')
            for n in range(7))
    if k == 'collide':      # these two names have the same hash
        return zone.replace('Odd', 'ab') % ('1:00', '-', 'AAA', '') + \
            zone.replace('Odd', 'bA') % ('2:00', '-', 'BBB', '')
    if k == 'link':
        return r.choice(['Link\tNo/Such_Zone\tEtc/Odd\n',
                         'Link\tEtc/Odd\tEtc/Odd\n',
                         'Link\tEtc/Od2\tEtc/Od3\nLink\tEtc/Odd\tEtc/Od2\n'
                         + zone % ('1:00', '-', 'ODD', '')])
    if k == 'digits':
        return zone.replace('Etc/Odd', r.choice(['1', '9-9', '+', '_', 'class']
                                                )) % ('1:00', '-', 'ODD', '')
    if k == 'nostd':
        return 'Rule\tOdd\t1990\tmax\t-\tApr\tSun>=1\t2:00\t1:00\tS\n' + \
            zone % ('1:00', 'Odd', 'O%sD', '')
    return zone % ('1:00', r.choice(['-', '1:00']), r.choice(
        ['O%sD', 'O%zD', '%z', '%d', '/', '%']), '')


def fill(w, sc):
    """Put the old outputs in place."""
    old = sc['old']
    if 'blocks' in old:
        tzgen.put_tree(w, old['blocks'], 'in0')
        f = dict(old['flags'])
        if not f.get('json'):
            f.pop('json', None)
        core.compile_run(w, tzgen.argv(f, 'in0', 'out'))
        # not there for the runs that follow
        core.shutil.rmtree(w.path('in0'))
    else:
        r = core.random.Random(old['fill'])
        for k in scene.expected(sc):
            if r.random() < old['rate']:
                w.put('out/' + k, bytes(r.randrange(256) for _ in
                                        range(r.choice([0, 3, 900]))))


def execute(sc):
    res = Result()
    w = core.World()
    try:
        scene.setup(w, sc)
        fill(w, sc)
        old = scene.files(w.snap('out'))
        base = {'bufsize': sc['bufsize']}
        ref = scene.run(w, sc, base, versions=True)
        vers = {}
        for rel, vs in (ref.get('versions') or {}).items():
            if rel.startswith('out/'):
                vers[rel[4:]] = vs
        new = scene.files(w.snap('out'))
        res.run(ref)
        res.mix(sorted(new.items()))
        ok = ref['exit'] == 0
        res.count('undisturbed_ok' if ok else 'undisturbed_refused')
        for k, v in new.items():
            if v != old.get(k) and v not in vers.get(k, ()):
                vers.setdefault(k, []).append(v)
        judge(res, 'no fault', ref, old, new, vers, None if ok else 'input')
        if res.viol or ref.get('died'):
            return res
        size = sum(len(v) for v in new.values())
        memo = []

        def restore():
            core.shutil.rmtree(w.path('out'))
            os.mkdir(w.path('out'))
            for k, v in old.items():
                w.put('out/' + k, v)

        def lines():
            if not memo:
                restore()
                memo.append(scene.run(w, sc, base, trace=True).get('lines')
                            or 1)
            return memo[0]
        for f in sc['faults']:
            restore()
            if f['kind'] == 'reject':
                out, fired = reject(w, sc, f, base)
                if out is None:
                    continue
                out['fired'] = dict(out['fired'], **{fired: 1})
                if out['exit'] == 0:
                    # whether it must be refused is not the question here
                    res.count('reject_accepted')
                    continue
                must = 'input'
            else:
                plan = dict(base, **plan_of(f, ref, size, lines))
                out = scene.run(w, sc, plan)
                must = None
                for g in plan.get('faults', ()):
                    if 'at' in g and g['do'] not in ('crash_after',) and \
                            ref['ops'][g['at']][1].startswith('in'):
                        must = 'input' if out['exit'] != 0 else None
            got = scene.files(w.snap('out'))
            res.run(out)
            if out['fired']:
                res.count('fault_took_effect')
            st = judge(res, f, out, old, got, vers, must)
            res.saw(f['kind'], sorted(out['fired']), st)
            if res.viol:
                res.viol['fault'] = f
                return res
    finally:
        w.close()
    return res


def plan_of(f, ref, size, lines):
    if f['kind'] != 'crash':
        return c01.plan_of(f, ref, size, lines)
    ops = ref['ops']
    side = [k for k, o in enumerate(ops)
            if (o[1] or '').startswith('out') == f['out']]
    if f['do'] == 'part':
        side = [k for k in side if ops[k][0] == 'write'] or side
    if not side:
        side = list(range(len(ops)))
    n = side[min(int(f['pos'] * len(side)), len(side) - 1)]
    if f['do'] == 'part' and ops[n][0] == 'write':
        return {'faults': [{'at': n, 'do': 'crash',
                            'part': int(f['frac'] * (ops[n][2] or 1))}]}
    return {'faults': [{'at': n, 'do': 'crash' if f['do'] == 'part'
                        else f['do']}]}


def reject(w, sc, f, base):
    """Run with input that must be refused before anything is written."""
    how = f['how']
    sc = dict(sc, flags=dict(sc['flags']))
    ins = sorted(os.listdir(w.path('in')))
    p = w.path('in', ins[int(f['pick'] * len(ins))])
    plan = dict(base)
    kw = {}
    undo = None
    if how in ('missing', 'isdir', 'undecodable'):
        with open(p, 'rb') as fh:
            data = fh.read()
        os.remove(p)
        if how == 'isdir':
            os.mkdir(p)
        elif how == 'undecodable':
            k = int(f['pick'] * len(data))
            with open(p, 'wb') as fh:
                fh.write(data[:k] + b'\xff\xfe' + data[k:])

        def undo():
            if os.path.isdir(p):
                os.rmdir(p)
            with open(p, 'wb') as fh:
                fh.write(data)
    elif how == 'odd':
        name = os.path.join(w.path('in'), 'etcetera')
        with open(name, 'rb') as fh:
            data = fh.read()
        with open(name, 'ab') as fh:
            fh.write(odd_lines(core.random.Random(f['pick'])).encode())
        a = scene.args(dict(sc, include=None))

        def undo():
            with open(name, 'wb') as fh:
                fh.write(data)
    elif how == 'include':
        sc['include'] = ['No/Such_Zone']
        w.put('include2.txt', 'No/Such_Zone\n')
    elif how == 'years':
        if sc['flags']['scope'] == 'complete':
            return None, ''
        sc['flags']['start'] = 1900
    elif how in ('peer', 'oversize'):
        if sc['flags'].get('skip'):
            return None, ''
        if how == 'oversize':
            sc['flags'].pop('ignore_large', None)
        zones = sorted(b['n'] for b in sc['blocks'] if b['k'] == 'zone'
                       and (not sc.get('include')
                            or b['n'] in sc['include']))
        if not zones:
            return None, ''

        def prepare(sim):
            zp = core.load_repo()['zp']

            class S(zp.Script):
                def hit(self, zone, method, year):
                    super().hit(zone, method, year)
                    if how == 'peer' and len(self.calls) == 1 + int(
                            f['pick'] * 20):
                        raise RuntimeError('simulated peer failure')
                    if method == 'get_buffer_sizes':
                        self.sizes[zone] = {'default': (3, 9 if how ==
                                            'oversize' else 4)}
            zp.SCRIPT = S()
        kw['prepare'] = prepare
    elif how == 'readerror':
        plan['faults'] = [{'at': int(f['pick'] * 18), 'do': 'EIO'}]
    elif how == 'badzone':
        if sc['flags']['scope'] == 'basic':
            return None, ''
        p = w.path('in', 'africa')
        with open(p, 'rb') as fh:
            data = fh.read()
        with open(p, 'ab') as fh:
            fh.write(b'Zone\tAfrica/Broken\tx:y\t-\tLMT\n')

        def undo():
            with open(p, 'wb') as fh:
                fh.write(data)
        if sc.get('include'):
            undo()
            return None, ''
    if how != 'odd':
        a = scene.args(sc)
    if how == 'include':
        if '--include_list' in a:
            a[a.index('--include_list') + 1] = 'include2.txt'
        else:
            a += ['--include_list', 'include2.txt']
    out = core.compile_run(w, a, plan, **kw)
    if undo:
        undo()
    return out, 'reject_' + how


def judge(res, f, out, old, got, vers, must):
    """Old, new or torn, file by file; returns the states."""
    how = f if isinstance(f, str) else '%s (%s)' % (
        f['kind'], ', '.join(sorted(out.get('fired') or ())) or 'no effect')
    st, torn = {}, []
    for k in sorted(set(old) | set(got) | set(vers)):
        g = got.get(k)
        if g == old.get(k):
            st[k] = 'old'
        elif g is None:
            st[k] = 'gone'
            res.violation('gone', 'under %s the output %s existed before and '
                          'is gone (%s)' % (how, k, scene.tell(out)))
        elif g in vers.get(k, ()):
            st[k] = 'new'
        else:
            st[k] = 'torn'
            torn.append(k)
            if vers.get(k) and not any(v.startswith(g) for v in vers[k]):
                res.violation('mixed', 'under %s the output %s is neither '
                              'old, nor new, nor a leading part of the new '
                              'content: %s' % (how, k, scene.diff(
                                  vers[k][-1], g)))
            elif not vers.get(k):
                res.violation('stray', 'under %s the file %s changed though '
                              'the run does not write it' % (how, k))
    if len(torn) > 1:
        res.violation('torn', 'under %s more than one output is incomplete: '
                      '%s' % (how, torn))
    if out.get('exit') == 0 and torn:
        res.violation('torn-ok', 'status 0 but incomplete: %s' % torn)
    if must == 'input' and out.get('exit') != 0:
        bad = [k for k in st if st[k] != 'old']
        if bad:
            res.violation('early', 'the run was refused because of its input '
                          '(%s, %s) but these outputs changed: %s' % (
                              how, scene.tell(out), bad))
    return sorted(st.items())
