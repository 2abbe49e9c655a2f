"""F02: runtime parameters"""
import glob
import os
import re
from multiprocessing import Pool
import export
from interp import AnalysisError, Program

RULES = {
    'distinct': 'the parameters of one object have different names and are stored in different variables',
    'named': 'no two parameters of a class are registered with each other\'s variable (agreement of the words of names)',
    'default': 'a parameter of arithmetic or enumeration type has a value before it is registered (the value is its default)',
    'used': 'the variable of a parameter is read after the parameters were parsed: in a member function or a callback, not only in the constructor',
    'accessor': 'two accessors of a class do not return the same parameter',
    'table': 'the conversion table of an enumeration lists every enumerator once, with different strings, none exchanged',
    'library': 'the members of a library of initial states, fluxes, equations of state or geometries have different names, and each is put on the list once',
}
ARITH = re.compile(r'(const )?(double|float|bool|int|unsigned int|unsigned long|long|unsigned short|short|std::size_t)')


def nodes(n):
    st = [n]
    while st:
        x = st.pop()
        yield x
        for v in x.values():
            if isinstance(v, dict):
                st.append(v)
            elif isinstance(v, list):
                for y in v:
                    if isinstance(y, dict):
                        st.append(y)
                    elif isinstance(y, list):
                        st += [z for z in y if isinstance(z, dict)]


def ordered(n, deep=0):
    """all nodes in the order of the source, with the depth of lambda expressions"""
    if isinstance(n, dict):
        if 'k' in n:
            yield n, deep
            deep += n['k'] == 'lambda'
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from ordered(v, deep)
    elif isinstance(n, list):
        for x in n:
            yield from ordered(x, deep)


def family(q):
    """name of a class without template arguments"""
    out, d = '', 0
    for c in q:
        d += c == '<'
        if d == 0:
            out += c
        d -= c == '>'
    return out.strip()


def target(n):
    while True:
        k = n.get('k')
        if k == 'cast' and 'e' in n:
            n = n['e']
        elif k in ('idx', 'opcall') and n.get('a') and (k == 'idx' or n.get('op') in ('[]', '()')):
            n = n['a'][0]
        elif k == 'idx' and 'b' in n:
            n = n['b']
        elif k == 'mem' and not family(n.get('cls', '')).startswith('ryujin::') and 'b' in n:
            n = n['b']
        else:
            return n


def strings(n):
    return [x['v'] for x in nodes(n) if x.get('k') == 'str']


def words(s):
    s = re.sub(r'([a-z])([A-Z])', r'\1 \2', s)
    return [t.lower() for t in re.split(r'[^A-Za-z0-9]+', re.sub(r'(\d+)', r' \1 ', s)) if t]


def score(a, b):
    def one(x, y):
        return 2 if x == y else 1 if x.startswith(y) or y.startswith(x) else 0
    a, b = words(a), words(b)
    return sum(max([one(x, y) for y in b] + [0]) for x in a) + sum(max([one(x, y) for y in a] + [0]) for x in b)


def swapped(n1, m1, n2, m2):
    return score(n1, m2) + score(n2, m1) > score(n1, m1) + score(n2, m2)


def tus():
    r = []
    for e in export.EQS:
        r += ['%s:%s' % (e, p) for p in export.PER_EQ]
        r += ['%s:%s/%s' % (e, e, os.path.basename(g)) for g in sorted(glob.glob(os.path.join(export.REPO, 'source', e, '*.cc')))]
    return sorted(set(r)) + [':discretization.cc', ':offline_data.cc', ':equation_dispatch.cc']


def scan(tu):
    """registrations, accesses and calls of one translation unit"""
    P = Program(export.export(tu))
    out = {'regs': {}, 'used': set(), 'accessor': {}, 'names': {}, 'bases': {}, 'lists': {}}
    for q, c in P.class_by_q.items():
        if q.startswith('ryujin::'):
            out['bases'][family(q)] = [family(b) for b in c.get('bases', []) if b.startswith('ryujin::')]
    sets = {}
    for f in P.find(r'ryujin::.*'):
        # variables that functions of a class assign (or pass on to be filled)
        if f.get('body') and f.get('cls') and not f.get('ctor'):
            d = sets.setdefault(family(f['q']), set())
            for n in nodes(f['body']):
                ts = []
                if n.get('k') == 'asg' or n.get('k') == 'opcall' and n.get('op') == '=' and n.get('a'):
                    ts = [n['a'][0]]
                elif 'pm' in n and isinstance(n.get('a'), list) and n.get('n') != 'add_parameter':
                    ts = [a for a, p in zip(n['a'], n['pm']) if p == 'r']
                for t in map(target, ts):
                    if t.get('k') == 'mem' and t.get('n'):
                        d.add((family(t.get('cls', '')), t['n']))
    before = {}
    for f in P.find(r'ryujin::.*'):
        # registered by a function the constructor calls: the constructor sets the value
        if f.get('ctor') and f.get('body'):
            d = {(family(f['cls']), i['n']) for i in f.get('inits', []) if i.get('e') and i.get('n')}
            for n in nodes(f['body']):
                if n.get('k') == 'asg' or n.get('k') == 'opcall' and n.get('op') == '=' and n.get('a'):
                    t = target(n['a'][0])
                    d.add((family(t.get('cls', '')), t.get('n')))
                elif n.get('q'):
                    d |= sets.get(family(n['q']), set())
            before.setdefault(family(f['cls']), []).append(d)
    for f in P.find(r'ryujin::.*'):
        body = f.get('body')
        if not body:
            continue
        fam = family(f['q'])
        inits = [i for i in f.get('inits', []) if i.get('e')]
        mark = {}
        regs = []
        assigned = {}
        for pos, (n, deep) in enumerate(ordered({'k': 'top', 'i': [i['e'] for i in inits], 'b': body})):
            k = n.get('k')
            t = None
            if k == 'asg' or k == 'opcall' and n.get('op') in ('=', '+=', '-=', '*=', '/=') and n.get('a'):
                t = target(n['a'][0])
            elif k == 'un' and n['op'] in ('++', '--'):
                t = target(n['e'])
            if t is not None and t.get('k') == 'mem':
                mark[id(t)] = 'write'
                assigned.setdefault((family(t.get('cls', '')), t.get('n')), pos)
            if 'pm' in n and isinstance(n.get('a'), list):
                if n.get('n') == 'add_parameter' and len(n['a']) >= 2:
                    t = target(n['a'][1])
                    mark[id(t)] = 'reg'
                    regs.append((n, t, pos))
                else:
                    for a, p in zip(n['a'], n['pm']):
                        if p == 'r':
                            t = target(a)
                            mark.setdefault(id(t), 'ref')
                            assigned.setdefault((family(t.get('cls', '')), t.get('n')), pos)
                if n.get('q'):
                    for m in sets.get(family(n['q']), ()):
                        assigned.setdefault(m, pos)
            if k == 'mem' and n.get('n') and n.get('cls', '').startswith('ryujin::'):
                if mark.get(id(n)) != 'reg' and mark.get(id(n)) != 'write' and not (f.get('ctor') and not deep):
                    out['used'].add((family(n['cls']), n['n']))
        ss = [x for x in body.get('s', []) if x.get('k') != 'null']
        if len(ss) == 1 and ss[0].get('k') == 'ret' and ss[0].get('e') and not f['params']:
            t = target(ss[0]['e'])
            if t.get('k') == 'mem' and t.get('n') and t.get('b', {}).get('k') == 'this':
                out['accessor'].setdefault((family(t.get('cls', '')), t['n']), set()).add(fam)
        for n, t, pos in regs:
            if t.get('k') == 'mem':
                m = (family(t.get('cls', '')), t['n'])
                init = [i for i in inits if i.get('n') == t['n']] or m in assigned and assigned[m] < pos or m[0] != family(f.get('cls', '')) or \
                    not f.get('ctor') and any(m in g for g in before.get(family(f.get('cls', '')), []))
            else:
                m, init = None, True
            out['regs'].setdefault((f['key'], fam, family(f.get('cls', '')), f['file'], f['l']), []).append(
                (tuple(strings(n['a'][0])), m, t.get('t', ''), bool(init), n['l']))
        if f.get('ctor'):
            for i in f.get('inits', []):
                if i.get('base', '').startswith('ryujin::') and i.get('e'):
                    s = strings(i['e'])
                    if s:
                        out['names'].setdefault((family(f['cls']), family(i['base'])), set()).add(s[0])
        made = [family(t) for n in nodes(body) if n.get('n') in ('make_unique', 'make_shared') for t in n.get('ta', [])[:1]]
        if made and fam.rsplit('::', 1)[-1] in ('populate_initial_state_list', 'populate_flux_list', 'populate_equation_of_state_list') or \
                len([x for x in made if x.startswith('ryujin::Geometries::')]) > 1:
            out['lists'].setdefault(f['key'], (made, f['file'], f['l'], fam))
    out['enums'] = {q: [v[0] for v in e['vals']] for q, e in P.enums.items() if q.startswith('ryujin::')}
    out['tables'] = {}
    for f in P.find('probe::table'):
        rows = []
        for n, _ in ordered(f['body']):
            if n.get('k') == 'ctor' and n.get('n') == 'tuple' and len(n['a']) == 2:
                e = [x['enum'] for x in nodes(n['a'][0]) if 'enum' in x]
                rows.append((e, strings(n['a'][1])))
        out['tables'][f['params'][0]['t']] = (rows, f['file'], f['l'])
    return out




def run(R):
    for r in RULES:
        R.rule(RULES[r])
    R.assume('the parameters of the GeoTIFF initial state are used only in a build with GDAL, those of the Sesame equation of state with EOSPAC')
    export.exporter()
    export.tree_hash()
    with Pool(8) as pool:
        outs = pool.map(scan, tus() + ['probe:tables'], 1)
    regs, used, accessor, names, bases, lists, enums, tables = {}, set(), {}, {}, {}, {}, {}, {}
    for o in outs:
        regs.update(o['regs'])
        used |= o['used']
        for k, v in o['accessor'].items():
            accessor.setdefault(k, set()).update(v)
        for k, v in o['names'].items():
            names.setdefault(k, set()).update(v)
        bases.update(o['bases'])
        lists.update(o['lists'])
        enums.update(o['enums'])
        tables.update(o['tables'])

    members = {}
    for (key, fam, cls, file, line), ps in sorted(regs.items()):
        f = {'file': file, 'l': line, 'q': fam}
        R.count('constructors')
        members.setdefault(cls, {})

        def ok(what, cond, rule, detail=''):
            R.ok('F02:%s:%s' % (cls, what), cond, f, RULES[rule], detail)
        plain = [(' '.join(s), m, t, i, l) for s, m, t, i, l in ps]
        for k, (s, m, t, init, l) in enumerate(plain):
            R.count('registrations')
            if m is None or not s:
                # composed name or variable of a local object
                continue
            members[cls].setdefault((s, m), f)
            if ARITH.fullmatch(t) or t in enums:
                ok('%s:default' % s, init, 'default', 'line %s: %s has no value when it is registered' % (l, m[1]))
            for s2, m2, t2, i2, l2 in plain[:k]:
                if m2 is None or not s2:
                    continue
                ok('%s:distinct:%s' % (s2, s), s != s2 and m != m2, 'distinct', '"%s" -> %s and "%s" -> %s' % (s2, m2[1], s, m[1]))
                ok('%s:named:%s' % (s2, s), not swapped(s, m[1], s2, m2[1]), 'named', '"%s" -> %s and "%s" -> %s' % (s2, m2[1], s, m[1]))
    for cls, d in sorted(members.items()):
        for (s, m), f in sorted(d.items()):
            R.count('parameters')
            if not cls.endswith('::GeoTIFF'):
                R.ok('F02:%s:%s:used' % (cls, s), m in used, f, RULES['used'], '%s is not read after parsing' % m[1])
            R.ok('F02:%s:%s:accessor' % (cls, s), len(accessor.get(m, ())) <= 1, f, RULES['accessor'],
                 '%s is returned by %s' % (m[1], sorted(accessor.get(m, ()))))

    for e, (rows, file, line) in sorted(tables.items()):
        f = {'file': file, 'l': line, 'q': 'conversion table of ' + e}
        R.count('tables')
        if e not in enums or any(len(a) != 1 or len(b) != 1 for a, b in rows):
            raise AnalysisError('conversion table of %s' % e)
        rows = [(a[0].rsplit('::', 1)[-1], b[0]) for a, b in rows]
        R.ok('F02:table:%s:complete' % e, sorted(a for a, b in rows) == sorted(enums[e]), f, RULES['table'], str(rows))
        R.ok('F02:table:%s:distinct' % e, len({b for a, b in rows}) == len(rows), f, RULES['table'], str(rows))
        for k, (a, b) in enumerate(rows):
            for a2, b2 in rows[:k]:
                R.ok('F02:table:%s:%s:%s' % (e, a2, a), not swapped(b, a, b2, a2), f, RULES['table'], '"%s" is %s and "%s" is %s' % (b, a, b2, a2))

    for fam, (made, file, line, q) in sorted(lists.items()):
        f = {'file': file, 'l': line, 'q': q}
        R.count('lists')
        R.ok('F02:list:%s:once' % fam, len(set(made)) == len(made), f, RULES['library'], str(made))
        given = [(c, n) for c in set(made) for (c2, b), ns in names.items() if c2 == c for n in ns]
        R.count('entries', len(given))
        for k, (c, n) in enumerate(sorted(given)):
            for c2, n2 in sorted(given)[:k]:
                R.ok('F02:list:%s:%s:%s' % (fam, c2, c), c == c2 or n != n2, f, RULES['library'], '%s and %s are both called "%s"' % (c, c2, n))
    R.floor('parameters', 240)
    R.floor('tables', 7)
    R.floor('lists', 3)
    R.floor('entries', 20)
