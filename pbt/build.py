"""Turns plain-data specs into gdspy objects; snapshots of objects."""
import gdspy
import numpy

gdspy.library.use_current_library = False


def set_props(el, props):
    if props:
        el.properties = dict(props)
    return el


# caches, not part of the state a user sees
CACHES = {"_polygon_dict", "_bb_valid", "_bounding_box", "_bb_version", "_bb_dependencies"}


def snap(o, deep=False):
    """The observable state of an object as comparable plain data.  Cells
    inside references are identified, or described too if `deep`."""
    if o is None or isinstance(o, (bool, int, float, complex, str, bytes)):
        return o
    if isinstance(o, numpy.ndarray):
        return ("array", o.shape, o.tolist())
    if isinstance(o, numpy.generic):
        return o.item()
    if isinstance(o, dict):
        return ("dict", sorted(((repr(k), snap(v, deep)) for k, v in o.items()), key=lambda t: t[0]))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(snap(v, deep) for v in o)
    if isinstance(o, (set, frozenset)):
        return ("set", sorted(repr(snap(v, deep)) for v in o))
    if callable(o) and not type(o).__module__.startswith("gdspy"):
        return ("callable", id(o))
    if isinstance(o, gdspy.Cell) and not deep:
        return ("cell", id(o))
    names = []
    for cls in type(o).__mro__:
        s = cls.__dict__.get("__slots__", ())
        names += [s] if isinstance(s, str) else list(s)
    names += list(getattr(o, "__dict__", {}))
    return (type(o).__name__,) + tuple(
        (n, snap(getattr(o, n), deep)) for n in names if n not in CACHES and hasattr(o, n)
    )


def snap_cell(c, deep=True):
    """State of a cell, its elements and references (targets by identity)."""
    return (c.name, [snap(e) for e in c.polygons], [snap(e) for e in c.paths], [snap(e) for e in c.labels], [snap(e) for e in c.references])
