"""An ecospold2 writer and, side by side, the dataset that extraction has to return."""
from xml.sax.saxutils import escape, quoteattr

ACTIVITY = {"0": "transforming activity", "1": "market activity", "10": "market group", "2": "IO activity", "3": "residual activity",
            "4": "production mix", "5": "import activity", "6": "supply mix", "7": "export activity", "8": "re-export activity", "9": "correction activity"}
LEVEL = {"3": "current", None: "undefined", "0": "undefined", "1": "new", "2": "modern", "4": "old", "5": "outdated"}
ACCESS = {"1": "licensees", "0": "public", "2": "results only", "3": "restricted"}
INPUT = {"5": "from technosphere", "1": "materials/fuels", "2": "electricity/heat", "3": "services", "4": "from environment"}
OUTPUT = {"0": "reference product", "2": "byproduct", "3": "material for treatment", "4": "to environment", "5": "stock addition"}
BYPRODUCT = {"allocatable product": "allocatable product", "Waste": "waste", "Recyclable": "recyclable"}
PEDIGREE = (("reliability", "reliability"), ("completeness", "completeness"), ("temporalCorrelation", "temporal correlation"),
            ("geographicalCorrelation", "geographical correlation"), ("furtherTechnologyCorrelation", "further technology correlation"))
FIELDS = {'maxValue': 'maximum', 'meanValue': 'mean', 'minValue': 'minimum', 'mostLikelyValue': 'mode', 'mostFrequentValue': 'mode',
          'varianceWithPedigreeUncertainty': 'variance with pedigree uncertainty', 'standardDeviation95': 'standard deviation 95%'}
DISTRIBUTIONS = {
    'lognormal': (('meanValue', '2.5'), ('mu', '0.91'), ('variance', '0.04'), ('varianceWithPedigreeUncertainty', '0.0625')),
    'normal': (('meanValue', '-1.5'), ('variance', '0.5'), ('varianceWithPedigreeUncertainty', '0.75')),
    'triangular': (('minValue', '1'), ('mostLikelyValue', '2'), ('maxValue', '5')),
    'uniform': (('minValue', '-1'), ('maxValue', '7')),
    'undefined': (('minValue', '0.25'), ('maxValue', '4'), ('standardDeviation95', '0.1')),
    'beta': (('minValue', '1'), ('mostFrequentValue', '2'), ('maxValue', '3')),
    'gamma': (('shape', '1'), ('scale', '2'), ('minValue', '3')),
    'binomial': (('n', '10'), ('p', '0.5')),
}


def attrs(d):
    return ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in d.items() if v is not None)


def tag(name, text, lang=True):
    return '<%s%s>%s</%s>' % (name, ' xml:lang="en"' if lang else '', escape(text), name)


def uncertainty(name, kind, pedigree=None, comment=False):
    """(xml, expected) for an uncertainty element called ``name``."""
    values = DISTRIBUTIONS[kind]
    x = '<%s>' % name
    x += '<%s%s />' % (kind, attrs(dict(values)))
    e = {FIELDS.get(k, k): float(v) for k, v in values}
    e['type'] = kind
    if pedigree:
        x += '<pedigreeMatrix%s />' % attrs({k: str(s) for (k, _), s in zip(PEDIGREE, pedigree)})
        e['pedigree matrix'] = {l: s for (_, l), s in zip(PEDIGREE, pedigree)}
    else:
        e['pedigree matrix'] = {l: 5 for _, l in PEDIGREE} if kind in ('lognormal', 'normal') else {}
    if comment:
        x += tag('comment', 'an uncertain comment')
    return x + '</%s>' % name, e


def quantity(out, variable, formula):
    """Variable and formula attributes shared by all quantities."""
    if variable:
        out['variable'] = variable.strip()
    if formula:
        out['formula'] = formula.strip()


def prop(id, name, amount, unit='kg', variable=None, formula=None, unc=None):
    x = '<property%s>' % attrs({'propertyId': id, 'amount': amount, 'variableName': variable, 'mathematicalRelation': formula})
    x += tag('name', name)
    e = {'id': id, 'name': name, 'amount': float(amount), 'unit': unit or 'dimensionless'}
    if unit:
        x += tag('unitName', unit)
    quantity(e, variable, formula)
    if unc:
        u, e['uncertainty'] = uncertainty('uncertainty', *unc)
        x += u
    return x + '</property>', e


def parameter(id, name, amount, unit='kg', variable=None, formula=None, unc=None):
    x = '<parameter%s>' % attrs({'parameterId': id, 'amount': amount, 'variableName': variable, 'mathematicalRelation': formula})
    x += tag('name', name)
    e = {'id': id, 'name': name, 'amount': float(amount), 'unit': unit or 'dimensionless'}
    if unit:
        x += tag('unitName', unit)
    quantity(e, variable, formula)
    if unc:
        u, e['uncertainty'] = uncertainty('uncertainty', *unc)
        x += u
    return x + '</parameter>', e


def exchange(kind, id, name, amount, group, code, market=False, unit='kg', variable=None, formula=None, unc=None, link=None,
             classification=None, other_classification=False, properties=(), compartment=('air', 'unspecified'), volume=None,
             volume_variable=None, volume_formula=None, volume_unc=None, synonym=False, group_first=False):
    a = {'id': id, 'unitId': 'u', 'amount': amount, 'variableName': variable, 'mathematicalRelation': formula, 'activityLinkId': link,
         'productionVolumeAmount': volume, 'productionVolumeVariableName': volume_variable, 'productionVolumeMathematicalRelation': volume_formula}
    g = '<%sGroup>%s</%sGroup>' % (group, code, group)
    t = (INPUT if group == 'input' else OUTPUT)[code]
    e = {'id': id, 'tag': kind, 'name': name, 'unit': unit, 'amount': float(amount), 'type': t}
    x = '<%s%s>' % (kind, attrs(a))
    x += tag('name', name) + tag('unitName', unit)
    if group_first:
        x += g
    x += tag('comment', 'see <above> & below')
    if synonym:
        x += tag('synonym', 'also known as')
    quantity(e, variable, formula)
    if link:
        e['activity link'] = link
    if unc:
        u, e['uncertainty'] = uncertainty('uncertainty', *unc)
        x += u
    v = {'amount': float(volume or 0)}
    quantity(v, volume_variable, volume_formula)
    if volume_unc:
        u, v['uncertainty'] = uncertainty('productionVolumeUncertainty', *volume_unc)
        x += u
    if t in ('reference product', 'byproduct'):
        e['production volume'] = v
    if other_classification:
        x += '<classification>%s%s</classification>' % (tag('classificationSystem', 'CPC'), tag('classificationValue', 'Waste'))
    if classification:
        x += '<classification>%s%s</classification>' % (tag('classificationSystem', 'By-product classification'), tag('classificationValue', classification))
        e['byproduct classification'] = BYPRODUCT[classification]
    e['properties'] = []
    for px, pe in properties:
        x += px
        e['properties'].append(pe)
    if 'environment' in t:
        x += '<compartment>%s%s</compartment>' % (tag('compartment', compartment[0]), tag('subcompartment', compartment[1]))
        e['compartment'], e['subcompartment'] = compartment
    else:
        e['conditional exchange'] = bool(link and market and t == 'byproduct' and float(amount) < 0)
    if not group_first:
        x += g
    return x + '</%s>' % kind, e


def activity(id, name, location='GLO', type='0', level='3', access='1', start='1996-01-01', end='2015-12-31', scenario='Business-as-Usual',
             parent=None, isic='ISIC rev.4 ecoinvent', isic_value='420', flows=(), parameters=(), element='activityDataset', author='Fred', entry='Wilma',
             comments=False, first_class=False):
    com = {True: '<!-- a comment -->', False: ''}.get(comments, comments)
    x = '<%s><activityDescription>%s<activity%s>%s</activity>' % (element, com, attrs({'id': id, 'specialActivityType': type, 'parentActivityId': parent}), tag('activityName', name))
    if first_class:
        x += '<classification>%s%s</classification>' % (tag('classificationSystem', 'EcoSpold01Categories'), tag('classificationValue', 'paper/systems'))
    x += '<classification>%s%s</classification>' % (tag('classificationSystem', isic), tag('classificationValue', isic_value))
    x += '<geography>%s</geography>' % tag('shortname', location)
    x += '<technology%s></technology><timePeriod%s />' % (attrs({'technologyLevel': level}), attrs({'startDate': start, 'endDate': end}))
    x += '<macroEconomicScenario>%s</macroEconomicScenario></activityDescription><flowData>' % tag('name', scenario)
    e = {'id': id, 'parent': parent, 'name': name, 'location': location, 'type': ACTIVITY[type], 'technology level': LEVEL[level],
         'start date': start, 'end date': end, 'economic scenario': scenario, 'access restricted': ACCESS[access],
         'dataset author': author, 'data entry': entry, 'ISIC classification': isic_value if 'ISIC' in isic else None,
         'parameters': [], 'exchanges': []}
    for fx, fe in flows:
        x += com + fx
        e['exchanges'].append(fe)
    for px, pe in parameters:
        x += px
        e['parameters'].append(pe)
    x += '</flowData><administrativeInformation><dataEntryBy%s /><dataGeneratorAndPublication%s /></administrativeInformation></%s>' % (
        attrs({'personName': entry}), attrs({'accessRestrictedTo': access, 'personName': author}), element)
    return x, e


def document(activities, bom=False, comments=False):
    com = {True: '<!-- a comment -->', False: ''}.get(comments, comments)
    return ('\ufeff' if bom else '') + '<?xml version="1.0" encoding="utf-8"?>\n' + com + '<ecoSpold xmlns="http://www.EcoInvent.org/EcoSpold02">' + \
        ''.join(com + a[0] for a in activities) + '</ecoSpold>'
