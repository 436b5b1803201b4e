"""Decoders of every generated file set into one canonical form.

canon = {'ctx': {...}, 'zones': {name: {'id', 'eras': [...]}},
         'links': {name: {'id', 'target'}}, 'policies': {norm: {...}},
         'bufs': {zone: n}, 'counts': {...}}
    era  = (offset s, policy or None, fixed delta s, format, until year,
            month, day, seconds, suffix)
    rule = (from, to, month, dow, dom, at s, suffix, delta s, letter)

Policies are keyed by their normalised (identifier) name in every language.
A file that cannot be read as what it claims to be raises `Bad`.
"""
import ast
import json
import re
import struct
import warnings

MIN_YEAR, MAX_TO, MAX_UNTIL = -32767, 32766, 32767


class Bad(Exception):
    pass


def need(cond, *what):
    if not cond:
        raise Bad(' '.join(str(w) for w in what))


def norm(name):
    return re.sub('[^a-zA-Z0-9_]', '_', name.replace('+', '_PLUS_'))


def djb2(name):
    h = 5381
    for c in name:
        h = (h * 33 + ord(c)) & 0xffffffff
    return h


def short_format(f):
    return f.replace('%z', '').replace('%s', '%')


def u8(v, what):
    need(isinstance(v, int) and 0 <= v <= 255, what, v, 'does not fit uint8')
    return v


def i8(v, what):
    need(isinstance(v, int) and -128 <= v <= 127, what, v,
         'does not fit int8')
    return v


def u16(v, what):
    need(isinstance(v, int) and 0 <= v <= 65535, what, v,
         'does not fit uint16')
    return v


def i16(v, what):
    need(isinstance(v, int) and -32768 <= v <= 32767, what, v,
         'does not fit int16')
    return v


def u32(v, what):
    need(isinstance(v, int) and 0 <= v < 1 << 32, what, v,
         'does not fit uint32')
    return v


SUFFIX = {0x00: 'w', 0x10: 's', 0x20: 'u'}


def suffix_of(mod, what):
    s = mod & 0xf0
    need(s in SUFFIX, what, 'bad suffix', mod)
    return SUFFIX[s], mod & 0x0f


def check_rule(r, what):
    f, t, m, dow, dom, at, sfx, save, letter = r
    need(1 <= m <= 12, what, 'month', m)
    need(0 <= dow <= 7, what, 'day of week', dow)
    need(-31 <= dom <= 31 and (dow or dom > 0), what, 'day', dow, dom)
    need(sfx in 'wsu' and len(sfx) == 1, what, 'suffix', sfx)
    need(0 <= at < 26 * 3600, what, 'AT', at)
    need(-4 * 900 <= save < 12 * 900, what, 'SAVE', save)
    need(f <= t, what, 'from > to', f, t)
    i16(f, what + ' from')
    i16(t, what + ' to')
    need(isinstance(letter, str) and letter != '-', what, 'letter', letter)


def check_era(e, what):
    off, pol, delta, fmt, y, m, d, s, sfx = e
    need(1 <= m <= 12, what, 'until month', m)
    need(1 <= d <= 31, what, 'until day', d)
    need(sfx in 'wsu' and len(sfx) == 1, what, 'suffix', sfx)
    need(0 <= s < 26 * 3600, what, 'until time', s)
    need(-26 * 3600 < off < 26 * 3600, what, 'offset', off)
    i16(y, what + ' until year')
    need(pol is None or delta == 0, what, 'both policy and fixed shift')
    need(isinstance(fmt, str), what, 'format', fmt)


# --------------------------------------------------------------------------
# Python
# --------------------------------------------------------------------------

def _py_names(text, fname, env):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(text)
    except (SyntaxError, ValueError) as e:
        raise Bad('%s does not parse: %s' % (fname, e))

    def ev(n):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -ev(n.operand)
        if isinstance(n, ast.Dict):
            ks = [ev(k) for k in n.keys]
            need(len(set(ks)) == len(ks), fname, 'repeated key')
            return dict(zip(ks, [ev(v) for v in n.values]))
        if isinstance(n, (ast.List, ast.Tuple)):
            return [ev(v) for v in n.elts]
        if isinstance(n, ast.Name):
            need(n.id in env, fname, 'undefined name', n.id)
            return env[n.id]
        raise Bad('%s: unexpected expression' % fname)
    for st in tree.body:
        if isinstance(st, ast.AnnAssign):
            k, v = st.target.id, st.value
        elif isinstance(st, ast.Assign) and len(st.targets) == 1:
            k, v = st.targets[0].id, st.value
        else:
            continue
        need(k not in env, fname, 'name defined twice:', k)
        need(v is not None, fname, 'no value', k)
        env[k] = ev(v)


def decode_python(files):
    env = {}
    for f in ('zone_policies.py', 'zone_infos.py', 'zone_registry.py'):
        need(f in files, f, 'missing')
        _py_names(_text(files[f], f), f, env)
    pol = {}
    for k, v in env.items():
        if k.startswith('ZONE_POLICY_'):
            need(norm(v['name']) == k[12:], 'policy name', k, v['name'])
            rules = []
            for r in v['rules']:
                rules.append((r['from_year'], r['to_year'], r['in_month'],
                              r['on_day_of_week'], r['on_day_of_month'],
                              r['at_seconds'], r['at_time_suffix'],
                              r['delta_seconds'], r['letter']))
            pol[norm(v['name'])] = rules
    by_id = {id(v): norm(v['name']) for k, v in env.items()
             if k.startswith('ZONE_POLICY_')}
    zones, links = {}, {}
    for k, v in env.items():
        if not k.startswith('ZONE_INFO_'):
            continue
        need(norm(v['name']) == k[10:], 'info name', k, v['name'])
        eras = []
        for e in v['eras']:
            p = e['zone_policy']
            need(p is None or id(p) in by_id, k, 'unknown policy')
            eras.append((e['offset_seconds'],
                         None if p is None else by_id[id(p)],
                         e['era_delta_seconds'], short_format(e['format']),
                         e['until_year'], e['until_month'], e['until_day'],
                         e['until_seconds'], e['until_time_suffix']))
        if 'link_to' in v:
            need(v['link_to']['eras'] is v['eras'], k, 'link eras differ')
            links[v['name']] = {'target': v['link_to']['name'],
                                'id': djb2(v['name'])}
        else:
            zones[v['name']] = {'eras': eras, 'id': djb2(v['name'])}
    reg = env.get('ZONE_REGISTRY')
    both = env.get('ZONE_AND_LINK_REGISTRY')
    need(reg is not None and both is not None, 'no registry')
    for r, want in ((reg, set(zones)), (both, set(zones) | set(links))):
        need(set(r) == want, 'registry differs from the infos',
             sorted(set(r) ^ want)[:4])
        for n, i in r.items():
            need(i['name'] == n, 'registry entry', n, i['name'])
        need(list(r) == sorted(r), 'registry not sorted')
    ctx = {'version': env.get('TZDB_VERSION'), 'start': env.get('START_YEAR'),
           'until': env.get('UNTIL_YEAR'),
           'start_acc': env.get('START_YEAR_ACCURATE'),
           'until_acc': env.get('UNTIL_YEAR_ACCURATE')}
    canon = {'ctx': ctx, 'zones': zones, 'links': links, 'policies': pol,
             'counts': {}}
    for f in files:
        _counts(_text(files[f], f), '#', canon, f)
    return canon


def _text(b, f):
    if isinstance(b, str):
        return b
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError as e:
        raise Bad('%s is not UTF-8: %s' % (f, e))


# -- header counts and comment maps -----------------------------------------

def _counts(text, cm, canon, fname):
    c = re.escape(cm)
    g = {}
    m = re.search(c + r' Supported Zones: (\d+) \((\d+) zones, (\d+) links\)',
                  text)
    if m:
        need(int(m[1]) == int(m[2]) + int(m[3]), fname, 'sum of zones, links')
        g['zones'], g['links'] = int(m[2]), int(m[3])
    m = re.search(c + r' Unsupported Zones: (\d+) \((\d+) zones, (\d+) '
                  r'links\)', text)
    if m:
        need(int(m[1]) == int(m[2]) + int(m[3]), fname, 'sum of removed')
        g['rzones'], g['rlinks'] = int(m[2]), int(m[3])
    for k, lab in (('infos', 'Infos'), ('eras', 'Eras'),
                   ('policies', 'Policies'), ('rules', 'Rules')):
        m = re.search(c + r' Records:\n(?:' + c + r'.*\n)*?' + c + r'   '
                      + lab + r': (\d+)\n', text)
        if m:
            g[k] = int(m[1])
    for k, v in g.items():
        old = canon['counts'].setdefault(k, v)
        need(old == v, fname, 'count of', k, old, v)
    for k, pat in (
            ('removed_zones', r'Unsup+orted zones: (\d+)'),
            # (zones: the stated number leaves out notes on their rules)
            ('notable_zones', r'Notable zones: (\d+)'),
            ('removed_links', r'Unsup+orted links: (\d+)'),
            ('notable_links', r'Notable links: (\d+)'),
            ('removed_policies', r'Unsup+orted zone policies: (\d+)'
                                 r'|Unsup+orted policies: (\d+)'),
            ('notable_policies', r'Notable zone policies: (\d+)')):
        m = re.search(r'^' + c + ' ?(?:' + pat + r')\n' + c + r' ?-+\n((?:'
                      + c + r'.*\n|\n)*)', text, re.M)
        if not m:
            continue
        n = int([x for x in m.groups()[:-1] if x is not None][0])
        names, cur = {}, None
        for ln in m.groups()[-1].split('\n'):
            if ln.startswith(cm + ' ---') or ln.startswith(cm + '---'):
                break
            x = re.match(c + r' (\S+) \{(.*)', ln)
            if x:
                cur = x[1]
                need(cur not in names, fname, 'listed twice:', cur)
                names[cur] = [x[2]]
            elif cur and ln.startswith(cm):
                names[cur].append(ln[len(cm):])
        need(n == len(names), fname, k, 'says', n, 'lists', len(names))
        text_of = {a: _reason(b) for a, b in names.items()}
        old = canon.setdefault(k, text_of)
        need(old == text_of, fname, k, 'differs between files')


def _reason(parts):
    t = ' '.join(p.strip() for p in parts)
    return t[:-1] if t.endswith('}') else t


# --------------------------------------------------------------------------
# C and C++
# --------------------------------------------------------------------------

_TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<lc>//[^\n]*)
  | (?P<bc>/\*.*?\*/)
  | (?P<str>"(?:[^"\\\n]|\\.)*")
  | (?P<num>-?(?:0x[0-9a-fA-F]+|\d+))
  | (?P<id>[A-Za-z_][A-Za-z0-9_]*)
  | (?P<p>[-+{}()\[\]=;,&*:<>])
''', re.X | re.S)


def c_tokens(text, fname):
    # a backslash at the end of a line joins lines, also inside // comments
    text = re.sub(r'\\\n', '', text)
    lines, defines = [], {}
    for ln in text.split('\n'):
        if ln.startswith('#'):
            m = re.match(r'#define (\w+) +(\S+)', ln)
            if m:
                need(m[1] not in defines, fname, 'defined twice:', m[1])
                defines[m[1]] = m[2]
            lines.append('')
        else:
            lines.append(ln)
    text = '\n'.join(lines)
    toks, pos = [], 0
    while pos < len(text):
        m = _TOK.match(text, pos)
        need(m, fname, 'cannot read:', repr(text[pos:pos + 40]))
        k = m.lastgroup
        if k == 'str':
            toks.append(('str', _c_string(m[0][1:-1], fname)))
        elif k == 'num':
            toks.append(('num', int(m[0], 0)))
        elif k in ('id', 'p'):
            toks.append((k, m[0]))
        pos = m.end()
    return toks, defines


_ESC = {'n': 10, 't': 9, '\\': 92, '"': 34, "'": 39, 'r': 13, 'a': 7,
        'b': 8, 'f': 12, 'v': 11}


def _c_string(s, fname):
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] != '\\':
            out += s[i].encode('utf-8')
            i += 1
        elif s[i + 1] == 'x':
            m = re.match(r'[0-9a-fA-F]+', s[i + 2:])
            need(m, fname, 'bad \\x')
            v = int(m[0], 16)
            need(v < 256, fname, '\\x escape out of range')
            out.append(v)
            i += 2 + m.end()
        elif s[i + 1] in '01234567':
            m = re.match(r'[0-7]{1,3}', s[i + 1:])
            v = int(m[0], 8)
            need(v < 256, fname, 'octal escape out of range')
            out.append(v)
            i += 1 + m.end()
        else:
            need(s[i + 1] in _ESC, fname, 'bad escape', s[i + 1])
            out.append(_ESC[s[i + 1]])
            i += 2
    return bytes(out)


class Ref(str):
    pass


def c_decls(toks, fname):
    """{name: (value, dims)} of initialised objects, and extern names."""
    defs, ext, i, n = {}, {}, 0, len(toks)
    head = []
    depth = 0

    def value(i):
        k, v = toks[i]
        if (k, v) == ('p', '{'):
            out = []
            i += 1
            while toks[i] != ('p', '}'):
                x, i = value(i)
                out.append(x)
                if toks[i] == ('p', ','):
                    i += 1
                else:
                    need(toks[i] == ('p', '}'), fname, 'expected , or }',
                         toks[i])
            return out, i + 1
        if k == 'str':
            s = b''
            while i < n and toks[i][0] == 'str':
                s += toks[i][1]
                i += 1
            return s, i
        if k == 'num':
            return v, i + 1
        if (k, v) == ('p', '&'):
            need(toks[i + 1][0] == 'id', fname, 'bad reference')
            return Ref(toks[i + 1][1]), i + 2
        if (k, v) == ('p', '('):        # a cast
            while toks[i] != ('p', ')'):
                i += 1
            return value(i + 1)
        if k == 'id':
            if v in ('nullptr', 'NULL'):
                return None, i + 1
            return Ref(v), i + 1
        raise Bad('%s: unexpected %r' % (fname, v))
    try:
        while i < n:
            t = toks[i]
            if t == ('p', '='):
                v, i = value(i + 1)
                need(toks[i] == ('p', ';'), fname, 'expected ; after',
                     head[-3:])
                i += 1
                name, dims = _declared(head, fname)
                need(name not in defs, fname, 'defined twice:', name)
                defs[name] = (v, dims)
                head = []
            elif t == ('p', ';'):
                if ('id', 'extern') in head:
                    name, dims = _declared(head, fname)
                    need(name not in ext, fname, 'declared twice:', name)
                    ext[name] = dims
                head = []
                i += 1
            elif t == ('p', '{'):
                need(('id', 'namespace') in head or
                     ('id', 'extern') in head, fname, 'unexpected {',
                     head[-3:])
                depth += 1
                head = []
                i += 1
            elif t == ('p', '}'):
                need(depth > 0 and not head, fname, 'unexpected }')
                depth -= 1
                i += 1
            else:
                head.append(t)
                i += 1
    except IndexError:
        raise Bad('%s ends in the middle of a definition' % fname)
    need(depth == 0 and not head, fname, 'unbalanced braces at the end')
    return defs, ext


def _declared(head, fname):
    dims, hd = None, list(head)
    ids = [t for t in hd]
    if ('p', '[') in ids:
        j = ids.index(('p', '['))
        k = ids.index(('p', ']'))
        dims = ids[j + 1][1] if k == j + 2 else -1
        hd = ids[:j]
    names = [v for k, v in hd if k == 'id' and v != 'ACE_TIME_PROGMEM']
    need(names, fname, 'nameless definition')
    return names[-1], dims


def decode_c(files, lang, scope, ns):
    """The Arduino (lang='arduino') or C file set."""
    cpp = lang == 'arduino'
    ex = 'cpp' if cpp else 'c'
    D, X, M = {}, {}, {}
    for f in ('zone_policies', 'zone_infos', 'zone_registry'):
        for e in ('h', ex):
            fn = f + '.' + e
            need(fn in files, fn, 'missing')
            toks, mac = c_tokens(_text(files[fn], fn), fn)
            for k, v in mac.items():
                need(k not in M, fn, 'defined twice:', k)
                M[k] = v
            d, x = c_decls(toks, fn)
            for k, v in d.items():
                need(k not in D, fn, 'defined twice:', k)
                D[k] = v
            for k, v in x.items():
                need(k not in X, fn, 'declared twice:', k)
                X[k] = v

    def obj(ref, what):
        need(isinstance(ref, Ref) and ref in D, what, 'refers to', ref,
             'which is not defined')
        return D[ref][0]
    p = 'k' if cpp else 'k' + ns
    q = 'k' if cpp else 'kAtc'
    for k in X:
        need(k in D, 'declared but not defined:', k)
        if X[k] not in (None, -1):
            need(len(D[k][0]) == X[k], 'declared size of', k)
    for k, (v, dims) in D.items():
        if dims not in (None, -1) and isinstance(v, list):
            need(len(v) == dims, 'size of', k, dims, len(v))
    ctx = obj(Ref(p + 'ZoneContext'), 'context')
    need(len(ctx) == (11 if cpp else 10), 'context fields', len(ctx))
    if cpp:
        (st, un, sa, ua, base, maxt, ver, nf, nl, frs, lets) = ctx
        i16(base, 'base year')
    else:
        (st, un, sa, ua, maxt, ver, nf, nl, frs, lets) = ctx
        base = None
    for v in (st, un, sa, ua):
        i16(v, 'context year')
    i16(maxt, 'max transitions')
    u8(nf, 'number of fragments')
    u8(nl, 'number of letters')
    frs, lets = obj(frs, 'context'), obj(lets, 'context')
    need(len(frs) == nf, 'number of fragments', nf, len(frs))
    need(len(lets) == nl, 'number of letters', nl, len(lets))

    def st_of(v):
        if isinstance(v, Ref):
            v = obj(v, 'string')
        need(isinstance(v, bytes), 'not a string', v)
        return v.decode('utf-8', 'replace')
    need(frs[0] is None, 'fragment 0 exists')
    frag = [None] + [st_of(v) for v in frs[1:]]
    lets = [st_of(v) for v in lets]
    need(len(set(lets)) == len(lets), 'letter listed twice')
    need(nf <= 32, 'fragment index reaches printable characters')

    def full_name(raw):
        out = ''
        for ch in raw:
            o = ord(ch)
            if o < 32:
                need(0 < o < len(frag), 'unknown fragment', o)
                out += frag[o]
            else:
                out += ch
        return out
    tiny = scope != 'complete'

    def year(y, until):
        if not tiny:
            return i16(y, 'year')
        i8(y, 'tiny year')
        need(y != -128, 'invalid tiny year')
        if y == -127:
            return MIN_YEAR
        if y == 127:
            need(until, 'until marker in a rule')
            return MAX_UNTIL
        if y == 126 and not until:
            return MAX_TO
        return y + (base if base is not None else tiny_base)
    tiny_base = base
    if tiny and base is None:
        tiny_base = None
        for fn in files:
            m = re.search(r'--tiny_base_year (\d+)', _text(files[fn], fn))
            if m:
                tiny_base = int(m[1])
        tiny_base = tiny_base or 2100
    pol = {}
    polname = {}
    for k, (v, dims) in D.items():
        if not k.startswith(p + 'ZonePolicy'):
            continue
        name = k[len(p) + 10:]
        need(k in X, k, 'is not declared')
        need(isinstance(v, list) and len(v) == 2, 'policy', k)
        rl = obj(v[0], k)
        u8(v[1], 'number of rules')
        need(v[1] == len(rl), k, 'number of rules', v[1], len(rl))
        out = []
        for r in rl:
            need(isinstance(r, list) and len(r) == 9, k, 'rule fields')
            need(all(isinstance(x, int) for x in r), k, 'rule', r)
            fy, ty = year(r[0], False), year(r[1], False)
            m, dow, dom = u8(r[2], k), u8(r[3], k), i8(r[4], k)
            if scope == 'complete':
                mod, code, dm, li = u8(r[5], k), u16(r[6], k), \
                    i8(r[7], k + ' delta'), u8(r[8], k)
                sfx, rem = suffix_of(mod, k)
                need(rem < 15, k, 'remainder', rem)
                at, save = code * 15 + rem, dm * 60
            else:
                if cpp:
                    mod, code = _low_mod(r[5], r[6], k)
                else:
                    mod, code = _low_mod(r[5], r[6], k)
                sfx, rem = suffix_of(mod, k)
                need(rem < 15, k, 'remainder', rem)
                at = code * 900 + rem * 60
                need(0 <= r[7] <= 15, k, 'delta code', r[7])
                save, li = (r[7] - 4) * 900, u8(r[8], k)
            need(li < len(lets), k, 'letter index', li)
            out.append((fy, ty, m, dow, dom, at, sfx, save, lets[li]))
        pol[name] = out
        polname[k] = name
    zones, links, era_owner = {}, {}, {}
    infos = {k: v for k, (v, d) in D.items()
             if k.startswith(p + 'Zone') and isinstance(v, list)
             and k in X and len(v) == 6 and k != p + 'ZoneContext'
             and not k.startswith(p + 'ZonePolicy')
             and X[k] is None}
    for k, v in infos.items():
        name = full_name(st_of(v[0]))
        need(k == p + 'Zone' + norm(name), 'symbol of', name, 'is', k)
        u32(v[1], 'id')
        need(v[2] == p + 'ZoneContext', k, 'context', v[2])
        eras = obj(v[4], k)
        u8(v[3], 'number of eras')
        need(v[3] == len(eras), k, 'number of eras', v[3], len(eras))
        if v[5] is None:
            era_owner[v[4]] = k
            out = []
            for e in eras:
                out.append(_c_era(e, scope, k, polname, year))
            zones[name] = {'id': v[1], 'eras': out}
    for k, v in infos.items():
        if v[5] is None:
            continue
        name = full_name(st_of(v[0]))
        need(v[5] in infos and infos[v[5]][5] is None, k, 'target', v[5])
        need(v[4] == infos[v[5]][4], k, 'eras differ from the target')
        links[name] = {'id': v[1], 'target': full_name(
            st_of(infos[v[5]][0]))}
    # ids, buffer sizes
    ids, bufs = {}, {}
    src = dict(M) if not cpp else {k: v for k, (v, d) in D.items()}
    for k, v in src.items():
        v = int(v, 0) if isinstance(v, str) and re.match(
            r'^(0x)?[0-9a-f]+$', v) else v
        if k.startswith(p + 'ZoneId') and isinstance(v, int):
            ids[k[len(p) + 6:]] = v
        elif k.startswith(p + 'ZoneBufSize') and isinstance(v, int):
            bufs[k[len(p) + 11:]] = v
    want = {norm(n): z['id'] for n, z in list(zones.items())
            + list(links.items())}
    need(ids == want, 'zone id constants differ from the records',
         sorted(set(ids.items()) ^ set(want.items()))[:4])
    bn = {norm(n): n for n in zones}
    need(set(bufs) == set(bn), 'buffer sizes', sorted(set(bufs) ^ set(bn))[:4])
    bufs = {bn[k]: u8(v, 'buffer size') for k, v in bufs.items()}
    # registries
    for nm, want in (('ZoneRegistry', zones),
                     ('ZoneAndLinkRegistry', dict(zones, **links))):
        v = obj(Ref(p + nm), nm)
        size = D[p + nm + 'Size'][0] if cpp else int(M[p + nm + 'Size'], 0)
        need(size == len(v), nm, 'size', size, len(v))
        got = []
        for r in v:
            need(r in infos, nm, 'unknown entry', r)
            got.append(full_name(st_of(infos[r][0])))
        need(len(set(got)) == len(got) and set(got) == set(want), nm,
             'differs from the records')
        idl = [want[n]['id'] for n in got]
        need(idl == sorted(idl) and len(set(idl)) == len(idl), nm,
             'is not sorted by identifier')
    canon = {'ctx': {'version': st_of(ver), 'start': st, 'until': un,
                     'start_acc': sa, 'until_acc': ua, 'maxbuf': maxt},
             'zones': zones, 'links': links, 'policies': pol, 'bufs': bufs,
             'counts': {}, 'tiny': tiny_base if tiny else None}
    for f in files:
        _counts(_text(files[f], f), '//', canon, f)
        for m in re.findall(r'MaxBufSize: (\d+)', _text(files[f], f)):
            need(int(m) == maxt, f, 'MaxBufSize', m, maxt)
    return canon


def _low_mod(a, b, what):
    u8(a, what)
    u8(b, what)
    # the two fields are stored as (code, modifier)
    return b, a


def _c_era(e, scope, k, polname, year):
    need(isinstance(e, list), k, 'era')
    po = e[0]
    need(po is None or po in polname, k, 'unknown policy', po)
    po = None if po is None else polname[po]
    need(isinstance(e[1], bytes), k, 'format')
    fmt = e[1].decode('utf-8', 'replace')
    rest = e[2:]
    need(all(isinstance(x, int) for x in rest), k, 'era', e)
    if scope == 'complete':
        need(len(e) == 10, k, 'era fields', len(e))
        code, rem, dm, y, mo, d, tc, mod = rest
        i16(code, k + ' offset')
        i8(rem, k + ' offset remainder')
        need(0 <= rem < 15, k, 'offset remainder', rem)
        i8(dm, k + ' delta')
        off, delta = code * 15 + rem, dm * 60
        sfx, r = suffix_of(u8(mod, k), k)
        u16(tc, k)
        need(r < 15, k, 'until remainder', r)
        sec = tc * 15 + r
    else:
        need(len(e) == 9, k, 'era fields', len(e))
        code, dc, y, mo, d, tc, mod = rest
        i8(code, k + ' offset')
        u8(dc, k + ' delta code')
        need((dc >> 4) < 15, k, 'offset minutes', dc)
        off = code * 900 + (dc >> 4) * 60
        delta = ((dc & 15) - 4) * 900
        sfx, r = suffix_of(u8(mod, k), k)
        u8(tc, k)
        need(r < 15, k, 'until remainder', r)
        sec = tc * 900 + r * 60
    return (off, po, delta, fmt, year(y, True), u8(mo, k), u8(d, k), sec,
            sfx)


# --------------------------------------------------------------------------
# Go
# --------------------------------------------------------------------------

_GT = re.compile(r'''
    (?P<ws>[ \t\r]+) | (?P<nl>\n)
  | (?P<lc>//[^\n]*)
  | (?P<str>"(?:[^"\\\n]|\\.)*")
  | (?P<num>-?(?:0x[0-9a-fA-F]+|\d+))
  | (?P<id>[A-Za-z_][A-Za-z0-9_]*)
  | (?P<p>[-+{}()\[\]=,&*:.])
''', re.X)


def go_decls(text, fname, out):
    toks, pos = [], 0
    while pos < len(text):
        m = _GT.match(text, pos)
        need(m, fname, 'cannot read:', repr(text[pos:pos + 40]))
        k = m.lastgroup
        if k == 'str':
            toks.append(('str', _c_string(m[0][1:-1], fname)))
        elif k == 'num':
            toks.append(('num', int(m[0], 0)))
        elif k in ('id', 'p'):
            toks.append((k, m[0]))
        elif k == 'nl':
            toks.append(('nl', ''))
        pos = m.end()
    n = len(toks)

    def skip(i):
        while i < n and toks[i][0] == 'nl':
            i += 1
        return i

    def value(i):
        k, v = toks[i]
        if k == 'str':
            s = v
            i += 1
            while i < n and toks[i] == ('p', '+'):
                i = skip(i + 1)
                need(toks[i][0] == 'str', fname, 'string expected')
                s += toks[i][1]
                i += 1
            return s, i
        if k == 'num':
            return v, i + 1
        if (k, v) == ('p', '{'):
            return braces(i)
        if (k, v) == ('p', '&'):
            return value(i + 1)
        if (k, v) == ('p', '['):
            while toks[i] != ('p', ']'):
                i += 1
            return value(i + 1)
        if k == 'id':
            i += 1
            while i + 1 < n and toks[i] == ('p', '.'):
                v = toks[i + 1][1]
                i += 2
            if i < n and toks[i] == ('p', '{'):
                return braces(i)
            return Ref(v), i
        raise Bad('%s: unexpected %r' % (fname, v))

    def braces(i):
        out, keyed = [], {}
        i = skip(i + 1)
        while toks[i] != ('p', '}'):
            if toks[i][0] == 'id' and toks[i + 1] == ('p', ':'):
                v, j = value(skip(i + 2))
                need(toks[i][1] not in keyed, fname, 'field twice')
                keyed[toks[i][1]] = v
                i = j
            else:
                v, i = value(i)
                out.append(v)
            if toks[i] == ('p', ','):
                i = skip(i + 1)
            else:
                need(toks[i] == ('p', '}'), fname, 'expected , or }', toks[i])
        return (keyed if keyed else out), i + 1

    def assign(i):
        need(toks[i][0] == 'id', fname, 'name expected')
        name = toks[i][1]
        i += 1
        while toks[i] != ('p', '='):
            need(toks[i][0] != 'nl', fname, 'no value', name)
            i += 1
        v, i = value(skip(i + 1))
        need(i >= n or toks[i][0] == 'nl', fname, 'junk after', name)
        need(name not in out, fname, 'defined twice:', name)
        out[name] = v
        return i
    i = 0
    try:
        while True:
            i = skip(i)
            if i >= n:
                break
            t = toks[i]
            if t == ('id', 'package'):
                i += 2
            elif t == ('id', 'import'):
                while toks[i] != ('p', ')'):
                    i += 1
                i += 1
            elif t in (('id', 'const'), ('id', 'var')):
                if toks[i + 1] == ('p', '('):
                    i = skip(i + 2)
                    while toks[i] != ('p', ')'):
                        i = skip(assign(i))
                    i += 1
                else:
                    i = assign(i + 1)
            elif t == ('id', 'func'):
                while toks[i] != ('p', '{'):
                    i += 1
                d = 0
                while True:
                    d += {('p', '{'): 1, ('p', '}'): -1}.get(toks[i], 0)
                    i += 1
                    if d == 0:
                        break
            else:
                raise Bad('%s: unexpected %r' % (fname, t[1]))
    except IndexError:
        raise Bad('%s ends in the middle of a definition' % fname)


def decode_go(files):
    G = {}
    for f in ('zone_policies.go', 'zone_infos.go', 'zone_registry.go',
              'zone_policies_test.go', 'zone_infos_test.go',
              'zone_registry_test.go', 'reader_test.go'):
        need(f in files, f, 'missing')
        go_decls(_text(files[f], f), f, G)

    def strings(data, offs):
        d, o = G[data], G[offs]
        need(o[0] == 0 and o == sorted(o), offs, 'not increasing')
        lim = 255 if offs == 'LetterOffsets' else 65535
        need(all(0 <= x <= lim for x in o), offs, 'too large')
        need(o[-1] <= len(d), offs, 'beyond the data')
        # the last offset is the sentinel; each string ends where the next
        # one starts
        return [d[a:b].decode('utf-8', 'replace')
                for a, b in zip(o, o[1:])], d[o[-1]:]
    try:
        lets, rest = strings('LetterData', 'LetterOffsets')
        need(rest == b'~', 'LetterData ends with', rest)
        fmts, rest = strings('FormatData', 'FormatOffsets')
        need(rest == b'~', 'FormatData ends with', rest)
        names, rest = strings('NameData', 'NameOffsets')
        need(rest == b'~', 'NameData ends with', rest)

        def chunks(data, size, count, fmt):
            d, s, c = G[data], G[size], G[count]
            need(struct.calcsize(fmt) == s, data, 'chunk size', s)
            need(len(d) == s * c, data, 'length', len(d), '!=', s, '*', c)
            return [struct.unpack_from(fmt, d, i * s) for i in range(c)]
        rules = chunks('ZoneRulesData', 'ZoneRuleChunkSize', 'ZoneRuleCount',
                       '<hhBBbBHbB')
        pols = chunks('ZonePoliciesData', 'ZonePolicyChunkSize',
                      'ZonePolicyCount', '<HH')
        eras = chunks('ZoneErasData', 'ZoneEraChunkSize', 'ZoneEraCount',
                      '<HBBhhbBBBH')
        infos = chunks('ZoneInfosData', 'ZoneInfoChunkSize', 'ZoneInfoCount',
                       '<IHHHH')
        # the record form must say the same
        rr = [tuple(r[k] for k in (
            'FromYear', 'ToYear', 'InMonth', 'OnDayOfWeek', 'OnDayOfMonth',
            'AtSecondsModifier', 'AtSecondsCode', 'DeltaMinutes',
            'LetterIndex')) for r in G['ZoneRuleRecords']]
        need(rr == rules, 'ZoneRuleRecords differ from ZoneRulesData')
        rp = [tuple(r[k] for k in ('RuleIndex', 'RuleCount'))
              for r in G['ZonePolicyRecords']]
        need(rp == pols, 'ZonePolicyRecords differ from ZonePoliciesData')
        re_ = [tuple(r[k] for k in (
            'FormatIndex', 'PolicyIndex', 'OffsetSecondsRemainder',
            'OffsetSecondsCode', 'UntilYear', 'DeltaMinutes', 'UntilMonth',
            'UntilDay', 'UntilSecondsModifier', 'UntilSecondsCode'))
            for r in G['ZoneEraRecords']]
        need(re_ == eras, 'ZoneEraRecords differ from ZoneErasData')
        ri = [tuple(r[k] for k in ('ZoneID', 'NameIndex', 'EraIndex',
                                   'EraCount', 'TargetIndex'))
              for r in G['ZoneInfoRecords']]
        need(ri == infos, 'ZoneInfoRecords differ from ZoneInfosData')
        dc, rc = G['DataContext'], G['RecordContext']
    except (KeyError, TypeError, struct.error) as e:
        raise Bad('go files incomplete: %r' % (e,))
    for k in ('StartYear', 'UntilYear', 'StartYearAccurate',
              'UntilYearAccurate', 'MaxTransitions'):
        need(dc.get(k) == rc.get(k), 'contexts differ in', k)
    for k, v in list(dc.items()) + list(rc.items()):
        if isinstance(v, Ref):
            need(v == k, 'context field', k, 'is', v)
    need(pols and pols[0] == (0, 0), 'policy 0 is not the null policy')
    # policy names are only in comments; take them from the test file order
    pnames = re.findall(r'// PolicyName: (\S+)\n\s*// RuleIndex: (\d+)\n'
                        r'\s*// RuleCount: (\d+)',
                        _text(files['zone_policies_test.go'], 'go'))
    need(len(pnames) == len(pols) - 1, 'policy names', len(pnames))
    pol, pn, at = {}, [None], 0
    for (nm, ix, ct), (i, c) in zip(pnames, pols[1:]):
        need((int(ix), int(ct)) == (i, c), 'policy', nm, ix, ct, i, c)
        need(i == at and c > 0, 'policy', nm, 'rules are not consecutive')
        at = i + c
        need(at <= len(rules), 'policy', nm, 'beyond the rules')
        out = []
        for r in rules[i:i + c]:
            sfx, rem = suffix_of(r[5], nm)
            need(rem < 15, nm, 'remainder')
            need(r[8] < len(lets), nm, 'letter index', r[8])
            out.append((r[0], r[1], r[2], r[3], r[4], r[6] * 15 + rem, sfx,
                        r[7] * 60, lets[r[8]]))
        pol[norm(nm)] = out
        pn.append(norm(nm))
    need(at == len(rules), 'rules left over')
    need(len(infos) == len(names), 'names', len(names), 'infos', len(infos))
    ids = [i[0] for i in infos]
    need(ids == sorted(ids) and len(set(ids)) == len(ids),
         'infos are not sorted by identifier')
    need(sorted(i[1] for i in infos) == list(range(len(names))),
         'a name is used twice or never')
    zones, links, used = {}, {}, []
    for i in infos:
        nm = names[i[1]]
        if i[3] == 0:
            need(i[4] < len(infos) and infos[i[4]][3] > 0, nm, 'target', i[4])
            links[nm] = {'id': i[0], 'target': names[infos[i[4]][1]]}
            continue
        need(i[2] + i[3] <= len(eras), nm, 'eras beyond the end')
        used.append((i[2], i[3]))
        out = []
        for e in eras[i[2]:i[2] + i[3]]:
            fi, pi, orem, ocode, y, dm, mo, d, mod, tc = e
            need(fi < len(fmts), nm, 'format index', fi)
            need(pi < len(pn), nm, 'policy index', pi)
            need(orem < 15, nm, 'offset remainder')
            sfx, rem = suffix_of(mod, nm)
            need(rem < 15, nm, 'until remainder')
            out.append((ocode * 15 + orem, pn[pi], dm * 60,
                        '' if fmts[fi] == '%z' else fmts[fi], y, mo, d, tc * 15 + rem,
                        sfx))
        zones[nm] = {'id': i[0], 'eras': out}
    at = 0
    for a, c in sorted(used):
        need(a == at, 'eras overlap or are left out')
        at = a + c
    need(at == len(eras), 'eras left over')
    want = {norm(n): z['id'] for n, z in list(zones.items())
            + list(links.items())}
    got = {k[6:]: v for k, v in G.items() if k.startswith('ZoneID')}
    need(got == want, 'ZoneID constants differ from the records')
    pos = {norm(names[i[1]]): k for k, i in enumerate(infos)}
    got = {k[13:]: v for k, v in G.items() if k.startswith('ZoneInfoIndex')}
    need(got == pos, 'ZoneInfoIndex constants differ from the records')
    canon = {'ctx': {'version': G['TzDatabaseVersion'].decode(),
                     'start': dc['StartYear'], 'until': dc['UntilYear'],
                     'start_acc': dc['StartYearAccurate'],
                     'until_acc': dc['UntilYearAccurate'],
                     'maxbuf': dc['MaxTransitions']},
             'zones': zones, 'links': links, 'policies': pol, 'counts': {}}
    for f in files:
        _counts(_text(files[f], f), '//', canon, f)
    return canon


# --------------------------------------------------------------------------
# JSON and zone list
# --------------------------------------------------------------------------

def decode_json(data):
    try:
        d = json.loads(_text(data, 'json'))
    except ValueError as e:
        raise Bad('JSON does not parse: %s' % e)
    try:
        zones = {}
        for n, z in d['zones_map'].items():
            zones[n] = {'id': d['zone_ids'][n], 'eras': [
                (e['offset_seconds_truncated'],
                 None if e['policy_name'] is None else norm(e['policy_name']),
                 e['era_delta_seconds_truncated'], short_format(e['format']),
                 e['until_year'], e['until_month'], e['until_day'],
                 e['until_seconds_truncated'], e['until_time_suffix'])
                for e in z['eras']]}
        links = {n: {'id': d['link_ids'][n], 'target': t}
                 for n, t in d['links_map'].items()}
        pol = {norm(n): [
            (r['from_year'], r['to_year'], r['in_month'],
             r['on_day_of_week'], r['on_day_of_month'],
             r['at_seconds_truncated'], r['at_time_suffix'],
             r['delta_seconds_truncated'], r['letter']) for r in p['rules']]
            for n, p in d['policies_map'].items()}
        canon = {
            'ctx': {'version': d['tz_version'], 'start': d['start_year'],
                    'until': d['until_year'],
                    'start_acc': d['start_year_accurate'],
                    'until_acc': d['until_year_accurate'],
                    'maxbuf': d['max_buf_size']},
            'zones': zones, 'links': links, 'policies': pol,
            'bufs': {k: v[0] for k, v in d['buf_sizes'].items()},
            'counts': {'zones': d['num_zones'], 'links': d['num_links'],
                       'policies': d['num_policies'], 'eras': d['num_eras'],
                       'rules': d['num_rules'],
                       'rzones': len(d['removed_zones']),
                       'rlinks': len(d['removed_links'])},
            'removed': {k: {n: sorted(v) for n, v in d['removed_' + k].items()}
                        for k in ('zones', 'links', 'policies')},
            'removed_zones': dict.fromkeys(d['removed_zones'], ''),
            'removed_links': dict.fromkeys(d['removed_links'], ''),
            'removed_policies': dict.fromkeys(d['removed_policies'], ''),
            'raw': d}
        need(set(d['zone_ids']) == set(zones), 'zone_ids')
        need(set(d['link_ids']) == set(links), 'link_ids')
        return canon
    except (KeyError, TypeError, AttributeError) as e:
        raise Bad('JSON incomplete: %r' % (e,))


def decode_zonelist(data):
    t = _text(data, 'zones.txt')
    m = re.search(r'^# numZones: (\d+)$', t, re.M)
    names = [x for x in t.split('\n') if x and not x.startswith('#')]
    need(m and int(m[1]) == len(names), 'numZones', m and m[1], len(names))
    need(names == sorted(names) and len(set(names)) == len(names),
         'zone list is not sorted')
    return names


# --------------------------------------------------------------------------
# Soundness of one canonical database
# --------------------------------------------------------------------------

def sound(c, what):
    ids = {}
    for n, z in list(c['zones'].items()) + list(c['links'].items()):
        need(n not in ids, what, 'name used twice:', n)
        need(z['id'] == djb2(n), what, 'identifier of', n, 'is',
             hex(z['id']), 'not', hex(djb2(n)))
        ids[n] = z['id']
    need(len(set(ids.values())) == len(ids), what, 'identifiers collide')
    need(len({norm(n) for n in ids}) == len(ids), what, 'symbols collide')
    used = set()
    for n, z in c['zones'].items():
        need(z['eras'], what, n, 'has no eras')
        prev = None
        for e in z['eras']:
            check_era(e, '%s: %s' % (what, n))
            if e[1] is not None:
                need(e[1] in c['policies'], what, n, 'unknown policy', e[1])
                used.add(e[1])
            key = (e[4], e[5], e[6], e[7])
            need(prev is None or key > prev or
                 c.get('tiny') and prev[0] == e[4] == MIN_YEAR,
                 what, n, 'eras out of order')
            prev = key
        need(z['eras'][-1][4] == MAX_UNTIL, what, n, 'last era ends in',
             z['eras'][-1][4])
    for n, l in c['links'].items():
        need(l['target'] in c['zones'], what, 'link', n, 'to', l['target'])
    for n, p in c['policies'].items():
        need(p, what, 'policy', n, 'is empty')
        for r in p:
            check_rule(r, '%s: policy %s' % (what, n))
        need(any(r[0] == MIN_YEAR and r[7] == 0 for r in p), what, 'policy',
             n, 'has no standard rule from the beginning')
    k = c['counts']
    have = {'zones': len(c['zones']), 'links': len(c['links']),
            'infos': len(c['zones']) + len(c['links']),
            'eras': sum(len(z['eras']) for z in c['zones'].values()),
            'policies': len(c['policies']),
            'rules': sum(len(p) for p in c['policies'].values())}
    for a, b in have.items():
        if a in k:
            need(k[a] == b, what, 'declares', k[a], a, 'but holds', b)
    if 'removed_zones' in c and 'rzones' in k:
        need(k['rzones'] == len(c['removed_zones']), what, 'removed zones')
    if 'removed_links' in c and 'rlinks' in k:
        need(k['rlinks'] == len(c['removed_links']), what, 'removed links')
    for a, b in (('removed_zones', 'zones'), ('removed_links', 'links')):
        both = set(c.get(a, ())) & set(c[b])
        need(not both, what, 'both emitted and removed:', sorted(both)[:3])


def decode(lang, files, scope, ns):
    try:
        if lang == 'python':
            return decode_python(files)
        if lang == 'go':
            return decode_go(files)
        return decode_c(files, lang, scope, ns)
    except Bad:
        raise
    except (KeyError, TypeError, ValueError, IndexError,
            AttributeError) as e:
        raise Bad('%s files cannot be decoded: %r' % (lang, e))


def shrink_years(c, base):
    """The same database with years confined to one byte around `base`."""
    def year(y, until):
        if y - base <= -127:
            return MIN_YEAR
        if until:
            return MAX_UNTIL if y - base >= 127 else y
        return MAX_TO if y - base >= 126 else y
    out = dict(c, tiny=base)
    out['zones'] = {n: dict(z, eras=[
        e[:4] + (year(e[4], True),) + e[5:] for e in z['eras']])
        for n, z in c['zones'].items()}
    out['policies'] = {n: [(year(r[0], False), year(r[1], False)) + r[2:]
                           for r in p] for n, p in c['policies'].items()}
    return out


def agree(a, b, wa, wb):
    """The two databases describe the same thing."""
    ta, tb = a.get('tiny'), b.get('tiny')
    if ta and not tb:
        b = shrink_years(b, ta)
    elif tb and not ta:
        a = shrink_years(a, tb)
    for k in ('zones', 'links', 'policies'):
        x, y = a[k], b[k]
        need(set(x) == set(y), k, 'differ:', wa, 'and', wb,
             sorted(set(x) ^ set(y))[:4])
        for n in x:
            need(x[n] == y[n], k, n, 'differs between', wa, 'and', wb,
                 _first_diff(x[n], y[n]))
    for k in ('version', 'start', 'until', 'start_acc', 'until_acc',
              'maxbuf'):
        if k in a['ctx'] and k in b['ctx']:
            need(a['ctx'][k] == b['ctx'][k], 'context', k, 'differs between',
                 wa, 'and', wb, a['ctx'][k], b['ctx'][k])
    for k in ('bufs',):
        if k in a and k in b:
            need(a[k] == b[k], k, 'differ between', wa, 'and', wb)
    for k in ('removed_zones', 'removed_links', 'removed_policies',
              'notable_zones', 'notable_links', 'notable_policies'):
        if k in a and k in b:
            need(set(a[k]) == set(b[k]), k, 'differ between', wa, 'and', wb,
                 sorted(set(a[k]) ^ set(b[k]))[:4])


def _first_diff(x, y):
    if isinstance(x, dict):
        for k in x:
            if x[k] != y.get(k):
                return '%s: %s' % (k, _first_diff(x[k], y.get(k)))
    if isinstance(x, list) and isinstance(y, list):
        for i, (p, q) in enumerate(zip(x, y)):
            if p != q:
                return '[%d] %r / %r' % (i, p, q)
        return 'lengths %d / %d' % (len(x), len(y))
    return '%r / %r' % (x, y)
