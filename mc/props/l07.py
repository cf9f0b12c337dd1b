"""L07 -- the map: containment, overlap, RoW and size order agree with face sets, whatever was asked before."""
from itertools import combinations

from ..engine import explore
from ..ref.check import Raised, call
from ..ref.geo import FACES, WORLD

from ocelot.transformations.locations import topology
from ocelot.transformations.locations._topology import Topology

# names of older ecoinvent releases and the place they denote
ALIASES = {
    'ASCC': 'US-ASCC', 'CSG': 'CN-CSG', 'FRCC': 'US-FRCC', 'HICC': 'US-HICC', 'MRO, US only': 'US-MRO',
    'NPCC, US only': 'US-NPCC', 'RFC': 'US-RFC', 'SERC': 'US-SERC', 'SGCC': 'CN-SGCC', 'SPP': 'US-SPP',
    'TRE': 'US-TRE', 'WECC, US only': 'US-WECC',
    'IAI Area 1': 'IAI Area, Africa', 'IAI Area 1, Africa': 'IAI Area, Africa',
    'IAI Area 2, North America': 'IAI Area, North America',
    'IAI Area 2, without Quebec': 'IAI Area, North America, without Quebec',
    'IAI Area 3': 'IAI Area, South America', 'IAI Area 3, South America': 'IAI Area, South America',
    'IAI Area 4&5 without China': 'IAI Area, Asia, without China and GCC',
    'IAI Area 4&5, without China': 'IAI Area, Asia, without China and GCC',
    'IAI Area 8': 'IAI Area, Gulf Cooperation Council', 'IAI Area 8, Gulf': 'IAI Area, Gulf Cooperation Council',
    'IAI Area, Europe outside EU & EFTA': 'IAI Area, Russia & RER w/o EU27 & EFTA',
}
PLACES = dict(FACES, **{k: FACES[v] for k, v in ALIASES.items()})
NAMES = sorted(PLACES)


def faces(loc, row=None):
    if isinstance(loc, (set, frozenset)):
        return frozenset(loc)
    if loc == 'RoW':
        return frozenset(row or ())
    return PLACES[loc]


def minus(f, subtract):
    for s in subtract or ():
        f = f - (PLACES[s] if s != 'RoW' else frozenset())
    return f


def contains(parent, child, subtract=None, row=None):
    if child == 'RoW':
        return parent == 'GLO' and not subtract
    f = faces(child)
    return bool(f) and f <= minus(faces(parent, row), subtract)


def contained(loc, exclude=False, subtract=None, row=None):
    f = minus(faces(loc, row), subtract)
    if not f:
        return set()
    out = {k for k, v in PLACES.items() if v <= f and not (exclude and k == loc)}
    if row:
        if row <= f and not (exclude and loc == 'RoW'):
            out.add('RoW')
    elif loc == 'GLO' and row is None and not subtract:
        out.add('RoW')
    return out


def order(locs, row=None):
    return sorted(set(locs), key=lambda l: (len(faces(l, row)), l), reverse=True)


def same(c, got, want, what):
    c.expect(type(got) is type(want) and got == want, lambda: '%s: expected %s, got %r' % (
        what, sorted(want)[:20] if isinstance(want, set) else want, got))


def pairs(c):
    """Every ordered pair of the known places."""
    a = c.choose('place', NAMES)
    c.state(a)
    c.outcome(len(PLACES[a]))
    same(c, set(call(c, topology, a)), set(PLACES[a]), 'faces of ' + a)
    same(c, set(call(c, topology.contained, a)), contained(a), 'contained in ' + a)
    same(c, set(call(c, topology.contained, a, exclude_self=True)), contained(a, True), 'strictly contained in ' + a)
    same(c, set(call(c, topology.resolve_row, [a])), set(WORLD - PLACES[a]), 'RoW of ' + a)
    for b in NAMES:
        same(c, call(c, topology.contains, a, b), PLACES[b] <= PLACES[a], '%s contains %s' % (a, b))
        if a < b:
            same(c, bool(call(c, topology.overlaps, [a, b])), bool(PLACES[a] & PLACES[b]), '%s overlaps %s' % (a, b))
            same(c, list(call(c, topology.ordered_dependencies, [{'location': b}, {'location': a}])), order([a, b]), 'order of %s, %s' % (a, b))


def groups(places, n):
    def scenario(c):
        """Overlap, RoW and order of groups."""
        g = [c.choose('member', places) for _ in range(n)]
        if sorted(g) != g or len(set(g)) != len(g):
            c.choose('canonical', ())
        g = c.permutation('order', g)
        c.state(g)
        named = [x for x in g if x != 'RoW']
        union = frozenset().union(*[PLACES[x] for x in named])
        same(c, bool(call(c, topology.overlaps, g)), sum(len(PLACES[x]) for x in named) != len(union), 'overlap in %r' % g)
        row = WORLD - union
        same(c, set(call(c, topology.resolve_row, g)), set(row), 'RoW of %r' % g)
        same(c, set(call(c, topology.resolve_row, {x: 1 for x in g})), set(row), 'RoW of %r' % g)
        ds = [{'location': x} for x in g + g[:1]]
        same(c, list(call(c, topology.ordered_dependencies, ds)), order(g), 'order of %r' % g)
        same(c, list(call(c, topology.ordered_dependencies, ds, resolved_row=set(row))), order(g, row), 'order of %r with RoW' % g)
        same(c, set(call(c, topology.contained, 'RoW', resolved_row=set(row))), contained('RoW', row=row), 'contained in RoW of %r' % g)
        c.outcome((len(row), len(union)))
    return scenario


def queries(places, rows, subtracts):
    def scenario(c):
        """RoW, resolved RoW and subtraction."""
        row = c.choose('resolved row', rows)
        row = None if row is None else WORLD - frozenset().union(*[PLACES[x] for x in row])
        sub = c.choose('subtract', subtracts)
        if sub is not None:
            sub = c.choose('as', (list, tuple))(sub)
        p = c.choose('parent', places)
        p = set(WORLD - PLACES[p[0]]) if isinstance(p, tuple) else p
        c.state((p if isinstance(p, str) else len(p), sub, row and len(row)))
        r = None if row is None else set(row)
        for x in (False, True):
            same(c, set(call(c, topology.contained, p, exclude_self=x, subtract=sub, resolved_row=r)),
                 contained(p, x, sub, row), 'contained in %r without %r (RoW %r)' % (str(p)[:20], sub, row and len(row)))
        for q in places:
            q = set(WORLD - PLACES[q[0]]) if isinstance(q, tuple) else q
            want = contains(p, q, sub, row)
            same(c, call(c, topology.contains, p, q, subtract=sub, resolved_row=r), want,
                 '%r contains %r without %r (RoW %r)' % (str(p)[:20], str(q)[:20], sub, row and len(row)))
            c.outcome((want, str(q)[:9]))
        same(c, call(c, topology.contains, p, set(), subtract=sub, resolved_row=r), False, 'contains nothing')
    return scenario


def history(n, wide):
    """All sequences of n questions to one map give the answers of a fresh map."""
    R = {'europe': ('RER',), 'ch+de': ('CH', 'DE')}
    Q = []
    for row in (None, 'europe', 'ch+de'):
        rf = None if row is None else WORLD - frozenset().union(*[PLACES[x] for x in R[row]])
        for sub in (None, ['CH'], ['CH', 'DE']):
            for p, q in (('RER', 'CH'), ('GLO', 'RoW'), ('RoW', 'CH')):
                Q.append(('contains', (p, q), sub, rf, contains(p, q, sub, rf)))
            for p in (('GLO', 'RER', 'RoW') if wide else ('GLO', 'RoW')):
                Q.append(('contained', (p,), sub, rf, contained(p, False, sub, rf)))
        for ls in (('CH', 'RoW', 'RER'), ('RoW', 'GLO')):
            Q.append(('ordered_dependencies', ls, None, rf, order(ls, rf)))
    if not wide:
        Q = Q[::2]

    def scenario(c):
        t = Topology()
        done = []
        for i in range(n):
            k = c.choose('question', range(len(Q)))
            f, args, sub, row, want = Q[k]
            done.append(k)
            c.state(tuple(done))
            kw = {'resolved_row': None if row is None else set(row)}
            if f == 'ordered_dependencies':
                args = ([{'location': l} for l in args],)
            elif sub is not None:
                kw['subtract'] = list(sub)
            got = call(c, getattr(t, f), *args, **kw)
            same(c, type(want)(got) if not isinstance(got, Raised) else got, want, 'after %r: %s%r' % (done, f, args))
        c.outcome(done[-1])
    return scenario


def run(rep, tier):
    big = tier == 'thorough'
    rep.add('pairs', explore('pairs', pairs), 'all %d x %d ordered pairs of places' % (len(NAMES), len(NAMES)))
    few = ('CH', 'DE', 'RER', 'GLO', 'RoW', 'CA', 'RNA', 'WEU', 'US-ASCC', 'ASCC') + (('NAFTA', 'RAS', 'CN', 'CSG', 'FR', 'Europe without Switzerland') if big else ())
    few = tuple(sorted(few))
    for n in (2, 3) + ((4,) if big else ()):
        rep.add('groups of %d' % n, explore('groups of %d' % n, groups(few, n)), 'all groups of %d of %r in all orders' % (n, few))
    q = ('GLO', 'RoW', 'RER', 'CH', 'WEU', 'CA', ('CH',), ('RER',))
    rows = (None, ('CH',), ('RER', 'CA'), ('GLO',), ('RER', 'RAS', 'RNA', 'RLA', 'RAF'))
    subs = [None, []] + [list(x) for k in (1, 2) for x in combinations(('CH', 'DE', 'RER', 'RoW', 'CA'), k)] + [['GLO']]
    rep.add('queries', explore('queries', queries(q, rows, subs)), 'all parents, children, subtractions (<=2 of 5 places) and RoWs')
    rep.add('histories', explore('histories', history(3 if big else 2, big)), 'all sequences of %d questions to one map' % (3 if big else 2))
    rep.assume('face data of constructive_geometries is the map')
