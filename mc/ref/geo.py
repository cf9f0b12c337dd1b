"""Geography as plain face sets, straight from the map data (not through Ocelot)."""
from constructive_geometries import ConstructiveGeometries

_cg = ConstructiveGeometries()
FACES = {k: frozenset(v) for k, v in _cg.data.items()}
WORLD = frozenset(_cg.all_faces)
FACES['GLO'] = WORLD


def place(loc, others=()):
    """Faces of ``loc``; ``RoW`` is what ``others`` (locations) leave of the world."""
    if loc != 'RoW':
        return FACES[loc]
    out = set(WORLD)
    for o in others:
        if o != 'RoW':
            out -= FACES[o]
    return frozenset(out)


def overlapping(locs):
    """Do the named places overlap?  (RoW is by construction disjoint.)"""
    named = [FACES[x] for x in locs if x != 'RoW']
    if 'GLO' in locs and len(locs) > 1:
        return True
    return sum(map(len, named)) != len(frozenset().union(*named)) if named else False
