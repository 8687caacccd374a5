"""Calls in a row on one object: (result of a fresh object, result after other calls)."""


def points(make, first, second, kw):
    alone = make().interpolate(first)
    ip = make()
    ip.interpolate(second, **kw)
    ip.interpolate(second)
    return alone, ip.interpolate(first)


def shapes(make, first, second, kw):
    alone = make().interpolate_to_shape(first)
    ip = make()
    ip.interpolate_to_shape(second, **kw)
    ip.interpolate_to_shape(second)
    return alone, ip.interpolate_to_shape(first)


def classic(make):
    alone = list(make().interpolate())
    ip = make()
    ip.interpolate()
    return alone, list(ip.interpolate())


def filled(make, dims):
    one = make()
    for d in dims:
        one.fill_borders(d)
    ip = make()
    ip.fill_borders(*dims)
    ip.interpolate()
    ip.interpolate()
    return list(one.interpolate()), list(ip.interpolate())


def two(make, other):
    """Two objects that live at the same time."""
    alone = list(make().interpolate())
    a = make()
    b = other()
    b.interpolate()
    r = list(a.interpolate())
    b.interpolate()
    return alone, r


def multilinear(make, first, second, s, s2):
    one = make()
    one.set_values(first)
    alone = one.interpolate(s)
    ip = make()
    ip.set_values(second)
    ip.interpolate(s2)
    ip(s)
    ip.set_values(first)
    return [alone, one.grid], [ip(s), ip.grid]


def refused(make, dims):
    """fill_borders with a dimension that does not exist: refused before anything is changed."""
    one = make()
    ip = make()
    try:
        ip.fill_borders(*dims)
    except NameError:
        return list(one.interpolate()), list(ip.interpolate())
    return None
