"""Builders for tiny but structurally complete datasets."""
from copy import deepcopy

_UNC = {
    'none': None,
    'lognormal': lambda a: {'type': 'lognormal', 'mean': abs(a) or 1., 'mu': __import__('math').log(abs(a) or 1.),
                            'variance': 0.04, 'variance with pedigree uncertainty': 0.09,
                            'negative': a < 0, 'pedigree matrix': {}},
    'normal': lambda a: {'type': 'normal', 'mean': a, 'variance': 0.25,
                         'variance with pedigree uncertainty': 0.5, 'pedigree matrix': {}},
    'triangular': lambda a: {'type': 'triangular', 'minimum': a - 0.5, 'mode': a, 'maximum': a + 1.5,
                             'pedigree matrix': {}},
    'uniform': lambda a: {'type': 'uniform', 'minimum': a - 0.5, 'maximum': a + 0.5,
                          'pedigree matrix': {}},
    'undefined': lambda a: {'type': 'undefined', 'minimum': a - 0.25, 'maximum': a + 0.75,
                            'standard deviation 95': 0., 'pedigree matrix': {}},
}
UNCERTAINTIES = tuple(_UNC)


def unc(kind, amount):
    f = _UNC[kind]
    return f(amount) if f else None


def exchange(id, type, name, amount, uncertainty='none', **kw):
    e = {
        'id': id,
        'type': type,
        'name': name,
        'amount': amount,
        'unit': 'kg',
        'tag': 'elementaryExchange' if 'environment' in type else 'intermediateExchange',
    }
    u = unc(uncertainty, amount) if uncertainty != 'none' else None
    if u is not None:
        e['uncertainty'] = u
    e.update(kw)
    return e


def product(id, name, amount, pv=None, classification=None, type='reference product', price=None,
            true_value=None, **kw):
    e = exchange(id, type, name, amount, **kw)
    if classification is not None:
        e['byproduct classification'] = classification
    if pv is not None:
        e['production volume'] = {'amount': pv}
    props = []
    if price is not None:
        props.append({'name': 'price', 'amount': price, 'unit': 'EUR2005', 'id': id + '-price'})
    if true_value is not None:
        props.append({'name': 'true value relation', 'amount': true_value, 'unit': 'd', 'id': id + '-tv'})
    if props or price is not None:
        e['properties'] = props
    return e


def dataset(id, name, location='GLO', type='transforming activity', exchanges=(), parameters=(), **kw):
    ds = {
        'id': id,
        'name': name,
        'location': location,
        'type': type,
        'filepath': id + '.spold',
        'start date': '2000-01-01',
        'end date': '2010-12-31',
        'technology level': 'current',
        'economic scenario': 'Business-as-Usual',
        'access restricted': 'public',
        'parent': None,
        'dataset author': {'name': 'n', 'email': 'e'},
        'data entry': {'name': 'n', 'email': 'e'},
        'exchanges': list(exchanges),
        'parameters': list(parameters),
    }
    ds.update(kw)
    return ds
