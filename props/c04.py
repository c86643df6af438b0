from . import leaf, assembly
BOUNDS = 'every path inside the limits, both modes, both horizon regions, and one parameter at a time beyond its limit; callees uninterpreted'


def obligations(tier):
    return assembly.assembly(tier)
