"""Small databases of single-output activities, markets and market groups."""
from .gen import dataset, exchange, product


def act(name, prod, loc, pv=1., inputs=(), amount=1., cls='allocatable product', id=None, unit='kg', **kw):
    return dataset(id or '%s/%s/%s' % (name, prod, loc), name, loc, exchanges=[
        product('rp', prod, amount, pv=pv, classification=cls, price=1., unit=unit)] + list(inputs), **kw)


def market(prod, loc, amount=1., pv=60., inputs=(), cls='allocatable product', name=None, id=None, unit='kg', **kw):
    return dataset(id or 'm/%s/%s' % (prod, loc), name or 'market for ' + prod, loc, type='market activity', exchanges=[
        product('rp', prod, amount, pv=pv, classification=cls, price=1., unit=unit)] + list(inputs), **kw)


def group(prod, loc, amount=1., pv=50., inputs=(), cls='allocatable product', name=None, id=None, unit='kg', **kw):
    return dataset(id or 'g/%s/%s' % (prod, loc), name or 'market group for ' + prod, loc, type='market group', exchanges=[
        product('rp', prod, amount, pv=pv, classification=cls, price=1., unit=unit)] + list(inputs), **kw)


def need(prod, amount=1., unc='none', id=None, **kw):
    return exchange(id or 'in-' + prod, 'from technosphere', prod, amount, unc, **kw)


def locations(c, label, places, least=0):
    out = c.subset(label, places)
    return out
