"""The internal data format as docs/data_format.rst describes it, written down a second time (without voluptuous)."""

LEVELS = ('undefined', 'new', 'modern', 'current', 'old', 'outdated')
TYPES = ("transforming activity", "market activity", "market group", "IO activity", "residual activity", "production mix", "import activity",
         "supply mix", "export activity", "re-export activity", "correction activity")
METHODS = ('combined production with byproduct', 'combined production without byproduct', 'constrained market', 'economic allocation',
           'no allocation', 'recycling activity', 'true value allocation', 'waste treatment')
PEDIGREE = ('reliability', 'completeness', 'temporal correlation', 'geographical correlation', 'further technology correlation')
DIST = {'lognormal': ('mean', 'variance with pedigree uncertainty', '?mu', '?variance'), 'normal': ('mean', 'variance with pedigree uncertainty', '?variance'),
        'uniform': ('maximum', 'minimum'), 'triangular': ('maximum', 'minimum', 'mode'), 'binomial': ('n', 'p'), 'beta': ('maximum', 'minimum', 'mode'),
        'gamma': ('minimum', 'scale', 'shape'), 'undefined': ('maximum', 'minimum', 'standard deviation 95%')}


def number(v):
    return isinstance(v, float)


def text(v):
    return isinstance(v, str)


def among(*options):
    return lambda v: isinstance(v, str) and v in options


def listof(f):
    return lambda v: isinstance(v, list) and all(f(x) for x in v)


def fields(required, optional):
    def check(v):
        return isinstance(v, dict) and set(required) <= set(v) <= set(required) | set(optional) and \
            all((required[k] if k in required else optional[k])(x) for k, x in v.items())
    return check


def pedigree(v):
    return isinstance(v, dict) and set(v) in (set(), set(PEDIGREE)) and all(isinstance(x, int) for x in v.values())


def uncertainty(v):
    if not isinstance(v, dict) or not text(v.get('type')) or v['type'] not in DIST:
        return False
    f = DIST[v['type']]
    req = {k: number for k in f if k[0] != '?'}
    req.update({'type': text, 'pedigree matrix': pedigree})
    return fields(req, {k[1:]: number for k in f if k[0] == '?'})(v)


COMMON = {'formula': text, 'uncertainty': uncertainty, 'variable': text}
prop = fields({'amount': number, 'id': text, 'name': text, 'unit': text}, COMMON)
parameter = prop
volume = fields({'amount': number}, COMMON)
BASE = {'amount': number, 'id': text, 'name': text, 'unit': text}
elementary = fields(dict(BASE, compartment=text, subcompartment=text, tag=among('elementaryExchange'), type=among('from environment', 'to environment')),
                    dict(COMMON, properties=listof(prop)))
intermediate = fields(dict(BASE, tag=among('intermediateExchange'), type=among('from technosphere', 'reference product', 'byproduct', 'dropped product')),
                      dict(COMMON, properties=listof(prop), **{'activity link': text, 'byproduct classification': among('allocatable product', 'waste', 'recyclable'),
                                                              'conditional exchange': lambda v: isinstance(v, bool), 'production volume': volume}))
dataset = fields({'exchanges': listof(lambda e: elementary(e) or intermediate(e)), 'parameters': listof(parameter),
                  'access restricted': among('public', 'licensees', 'results only', 'restricted'), 'economic scenario': text, 'end date': text, 'filepath': text,
                  'id': text, 'parent': lambda v: v is None or text(v), 'location': text, 'name': text, 'start date': text, 'technology level': among(*LEVELS),
                  'type': among(*TYPES), 'dataset author': text, 'data entry': text, 'ISIC classification': text},
                 {'code': text, 'allocation method': among(*METHODS), 'reference product': text, 'suppliers': lambda v: isinstance(v, list)})
