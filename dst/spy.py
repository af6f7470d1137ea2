"""Observation of a rule database through its public `add`."""

import pickle


def spy_on(db, on_add, on_extract=None):
    """Make `db.add` report every call to `on_add(start, ends, rule)` first.  The class is
    swapped (not the instance patched) so that the database stays picklable when undone."""
    cls = type(db)

    class Spy(cls):
        def add(self, start, ends, rule):
            on_add(start, ends, rule)
            return cls.add(self, start, ends, rule)

        def get_specification_rules(self, *args, **kwargs):
            if on_extract is not None:
                on_extract()
            return cls.get_specification_rules(self, *args, **kwargs)

    Spy.__name__, Spy.__qualname__, Spy.__module__ = cls.__name__, cls.__qualname__, cls.__module__
    Spy._plain = cls
    db.__class__ = Spy
    return db


def unspy(db):
    plain = getattr(type(db), "_plain", None)
    if plain is not None:
        db.__class__ = plain
    return db


def restart(sim, css, on_add=None):
    """The process dies after a pickle of the searcher was written; it is restored."""
    unspy(css.ruledb)
    data = pickle.dumps(css)
    new = pickle.loads(data)
    sim.fault("restart")
    sim.probe("restart")
    if on_add is not None:
        spy_on(new.ruledb, on_add)
    return new
