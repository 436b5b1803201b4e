"""C08: what is read does not depend on how the bytes are delivered."""
import json
import re

from sim import core, model, scene, tzgen
from sim.engine import Result

ID = 'C08'
COUNTS = {'quick': 900, 'thorough': 30000}
META = {
    'rule': 'Each scenario draws a source tree, optionally with lines that '
            'cannot be read, and lays it out several times: line ends (LF, '
            'CRLF, mixed, missing at the end of a file), blank and comment '
            'lines, trailing comments, trailing blanks and drawn runs of '
            'spaces and tabs between fields. Each layout is read by the real '
            'extractor under drawn deliveries (buffer of 1 byte to 64 KiB, '
            'short reads of drawn sizes at drawn reads) and compared with '
            'the reference reader; counters must account for every line. '
            'The whole compiler is then run over two of them. Distinct '
            'counts the different (layout features, delivery, readable and '
            'unreadable lines) seen.',
    'states': 'distinct (line ends, layout features, buffer size, number of '
              'short reads, unreadable lines)',
    'assumptions': ['white space is spaces and tabs; input is UTF-8'],
}
WORDS = ['see', 'the', 'Zone', 'Rule', 'note:', 'from', '1987', 'São Tomé',
         'ünï', '東京', '-', '#', 'Link', '%s', '\t', '😀', "it's", '"q"']


def comment(r):
    x = r.random()
    if x < 0.05:
        return '#' + 'x' * r.choice([100, 5000, 9000])
    if x < 0.25:
        return '#' + r.choice(['', 'Zone\tNo/Where\t0\t-\tNO', 'Rule\tX\t1',
                               '\t\t\t-5:00\t-\tX'])
    return '# ' + ' '.join(r.choice(WORDS) for _ in range(r.randint(0, 6)))


def bad_line(r, files):
    """A line that no reader can make sense of, and where it may go."""
    return r.choice([
        'Rule\tBad%d\t19x7\tonly\t-\tMar\t1\t2:00\t0\tS' % r.randint(1, 9),
        'Rule\tBad1\t1987\tonly\t-\tFoo\t1\t2:00\t0\tS',
        'Rule\tBad2\t1987\tonly\t-\tMar\t1\t2:00q\t0\tS',
        'Rule\tBad3\t1987\tonly\t-\tMar',
        'Rule\tBad3\t1987\tonly\t-\tMar\t1\t2:00\t0\tS\tRule\tX',
        'Zone\tBad/Zone%d\t-5:00' % r.randint(1, 9),
        'Zone\tBad/Other\t-5:00\t-\tEST\t19x9',
        'Zone\tBad/Third\t-5:00\t-\tEST\t1999 Foo',
        'Zone\tBad/Four\t-5:00\t-\tEST\t1999 Jan 1 2:00q',
        'Zone\tBad/Five\t-5:00\t-\tEST\t1999 Jan 1 2:00 Zone X',
        'Zine\tBad/Six\t-5:00\t-\tEST', 'garbage', 'Leap\t1972\tJun',
        '\x01\x02', 'Zon', 'RuleX', '0', '-5:00\t-\tEST',
        '\t\t\t-5:00', '\t-5:00\t-\tEST\t1x'])


def gen(r, i, tier):
    sc = scene.gen_base(r, big=0.08, include=0.1, actions=['json'],
                        langs=['python'])
    if r.random() < 0.35:
        for _ in range(r.randint(1, 4)):
            sc.setdefault('extra', []).append(
                [r.random(), bad_line(r, tzgen.FILES)])
    lays = []
    for n in range(3 if tier == 'quick' else 5):
        lays.append({
            'seed': r.randrange(1 << 30),
            'eol': r.choice(['lf', 'lf', 'crlf', 'mixed']),
            'final': r.random() < 0.6,
            'blank': r.choice([0, 0.1, 0.4]),
            'comment': r.choice([0, 0.1, 0.3]),
            'trail': r.choice([0, 0.1, 0.5]),
            'space': r.choice([0, 0, 0.3, 1]),
            'tail': r.choice([0, 0.2])})
    sc['layouts'] = lays
    ds = []
    for _ in range(2):
        d = {'bufsize': r.choice([1, 2, 3, 7, 16, 61, 256, 512, 4096, 8192,
                                  65536])}
        if r.random() < 0.7:
            d['short'] = [r.randrange(1 << 30),
                          r.choice([0.1, 0.5, 1.0]), 0]
        ds.append(d)
    sc['deliveries'] = ds
    return sc


def base(sc):
    """{file: [lines]} before any layout."""
    out = {}
    for f, t in tzgen.render(sc['blocks']).items():
        out[f] = t.split('\n')[:-1]
    for pos, ln in sc.get('extra') or ():
        k = int(pos * len(out))
        f = tzgen.FILES[min(k, len(out) - 1)]
        at = int((pos * len(out) - k) * (len(out[f]) + 1))
        out[f].insert(at, ln)
    return out


def lay(tree, lo):
    import random
    r = random.Random(lo['seed'])
    out = {}
    for f in tzgen.FILES:
        ls = []
        for ln in tree[f]:
            while r.random() < lo['blank']:
                ls.append(r.choice(['', ' ', '\t', '  \t ']))
            while r.random() < lo['comment']:
                ls.append(r.choice(['', '', '\t', '  ']) + comment(r))
            if ln and not ln.startswith('#'):
                if lo['space'] and '#' not in ln:
                    head = '\t' if ln[0] == '\t' else ''
                    if head and r.random() < 0.5:
                        head += r.choice(['\t', ' ', '\t\t\t', '   '])
                    if ln[0] == ' ':
                        head = ' '
                    ln = head + re.sub(r'[ \t]+', lambda m: ''.join(
                        r.choice(' \t') for _ in range(r.choice(
                            [1, 1, 2, 3, 9]))) if r.random() < lo['space']
                        else m[0], ln.strip())
                if r.random() < lo['trail']:
                    ln += r.choice([' ', '\t', '', '\t \t']) + comment(r)
                elif r.random() < lo['tail']:
                    ln += r.choice([' ', '\t', ' \t  '])
            ls.append(ln)
        b = ''
        for n, ln in enumerate(ls):
            eol = {'lf': '\n', 'crlf': '\r\n'}.get(lo['eol']) or r.choice(
                ['\n', '\r\n'])
            if n == len(ls) - 1 and not lo['final']:
                eol = ''
            b += ln + eol
        out[f] = b.encode('utf-8')
    return out


NUM = re.compile(r'\d+')


def counters(log):
    """Counters of unused lines in the summary of the log, all kinds."""
    n = 0
    for ln in log.split('\n'):
        if re.search(r'(ignored|invalid|unrecogni[sz]ed|unknown|skipped|bad)'
                     r'[^:]*lines?', ln, re.I) and 'Summary' in ln:
            n += sum(int(x) for x in NUM.findall(ln.split('Summary', 1)[1]))
    return n


def extract(w, plan):
    """Run the real extractor on w/in."""
    def main():
        import logging
        from acetimetools.extractor.extractor import Extractor
        logging.basicConfig(level=logging.INFO)
        out = {'exit': 0, 'exc': None, 'msg': ''}
        try:
            x = Extractor('in')
            x.parse()
            x.print_summary()
            out['data'] = x.get_data()
        except Exception as e:
            out.update(exit=1, exc=type(e).__name__, msg=str(e)[:300])
        return out
    return core.compile_run(w, [], plan, main=main)


def drop(x, key='raw_line'):
    if isinstance(x, dict):
        return {k: drop(v) for k, v in x.items() if k != key}
    if isinstance(x, (list, tuple)):
        return [drop(v) for v in x]
    return x


def rows(items, fields):
    return [{k: x.get(k) for k in fields} for x in items]


def compare(m, data):
    """Differences between the model and what was extracted, or None."""
    pol, zon, lnk = data
    for kind, want, have, sub in (('p', m.policies, pol, 'rules'),
                                  ('z', m.zones, zon, 'eras')):
        what = {'p': 'rule set', 'z': 'zone'}[kind]
        for n in sorted(set(want) | set(have)):
            if (kind, n) in m.soiled:
                continue
            if n not in have or n not in want:
                return '%s %r is %s' % (what, n, 'read from nowhere'
                                        if n not in want else 'lost')
            a = want[n]
            b = rows(have[n][sub], a[0])
            # an absent suffix may be spelled either way
            for x in a + b:
                for k in ('until_time_suffix', 'at_time_suffix'):
                    if x.get(k) == '':
                        x[k] = 'w'
            if a != b:
                k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y),
                         min(len(a), len(b)))
                return '%s %r, line %d: %r was read as %r' % (
                    what, n, k + 1, a[k] if k < len(a) else 'nothing',
                    b[k] if k < len(b) else 'nothing')
    for n in sorted(set(m.links) | set(lnk)):
        if ('l', n) in m.soiled:
            continue
        want = m.links.get(n, [])
        if len(want) == 1 and lnk.get(n) != want[0]:
            return 'link %r to %r was read as %r' % (n, want[0], lnk.get(n))
        if len(want) != 1 and n in lnk and lnk[n] not in want:
            return 'link %r to %r from nowhere' % (n, lnk[n])
    return None


def represented(data):
    pol, zon, lnk = data
    return (sum(len(p['rules']) for p in pol.values())
            + sum(len(z['eras']) for z in zon.values()) + len(lnk))


def place(w, files):
    for f, b in files.items():
        w.put('in/' + f, b)


def execute(sc):
    res = Result()
    w = core.World()
    tree = base(sc)
    try:
        first = None
        outs = []
        for n, lo in enumerate(sc['layouts']):
            files = lay(tree, lo)
            place(w, files)
            m = model.Model(files)
            for d in sc['deliveries'] if n else [{}] + sc['deliveries']:
                o = extract(w, d)
                res.run(o)
                res.saw(lo['eol'], lo['final'], bool(lo['space']),
                        bool(lo['comment']), bool(lo['trail']),
                        d.get('bufsize'), o['fired'], len(m.bad))
                where = 'layout %d (%s), delivery %s' % (n, lo, d)
                if o.get('exit') != 0:
                    res.violation('status', 'reading ends with %s; %s' % (
                        scene.tell(o), where))
                    return res
                data = o['data']
                res.count('records_read', represented(data))
                bad = compare(m, data)
                if bad:
                    res.violation('fields', '%s; %s' % (bad, where))
                    return res
                got = represented(data) + counters(o['log'])
                if got != m.records:
                    res.violation('account', '%d lines carry something, but '
                                  '%d are represented or counted; %s' % (
                                      m.records, got, where))
                    return res
                x = drop(data)
                res.mix(json.dumps(x, sort_keys=True))
                if first is None:
                    first = x
                elif x != first:
                    res.violation('layout', 'another layout of the same '
                                  'lines is read differently; ' + where)
                    return res
            if n in (0, len(sc['layouts']) - 1):
                scene.setup(w, dict(sc, blocks=[]))
                place(w, files)
                o = scene.run(w, sc, sc['deliveries'][0])
                res.run(o)
                outs.append((o, w.snap('out')))
        (a, fa), (b, fb) = outs[0], outs[-1]
        if a['exit'] != b['exit']:
            res.violation('status', 'two layouts end with %s and %s' % (
                scene.tell(a), scene.tell(b)))
        elif a['exit'] == 0:
            res.count('compiled')
            for k in fa:
                if drop(json.loads(fa[k])) != drop(json.loads(fb[k])):
                    res.violation('output', 'two layouts of the same lines '
                                  'give different databases')
    finally:
        w.close()
    return res


def simplify(sc):
    ex = sc.get('extra') or []
    for n in range(len(ex)):
        yield dict(sc, extra=ex[:n] + ex[n + 1:])
    ls = sc['layouts']
    for n in range(len(ls)):
        if len(ls) > 1:
            yield dict(sc, layouts=ls[:n] + ls[n + 1:])
        for k in ('blank', 'comment', 'trail', 'space', 'tail'):
            if ls[n][k]:
                yield dict(sc, layouts=ls[:n] + [dict(ls[n], **{k: 0})]
                           + ls[n + 1:])
        if ls[n]['eol'] != 'lf':
            yield dict(sc, layouts=ls[:n] + [dict(ls[n], eol='lf')]
                       + ls[n + 1:])
    if len(sc['deliveries']) > 1:
        for d in sc['deliveries']:
            yield dict(sc, deliveries=[d])
    for n, d in enumerate(sc['deliveries']):
        if 'short' in d:
            yield dict(sc, deliveries=sc['deliveries'][:n] + [
                {'bufsize': d['bufsize']}] + sc['deliveries'][n + 1:])
