"""One rule function per property, registered by id."""
RULES, MIN_OBLIGATIONS, EXPLAIN, TECHNIQUE = {}, {}, {}, {}


def prop(pid, minimum=1, explain=None, technique=None):
    def deco(fn):
        RULES[pid] = fn
        MIN_OBLIGATIONS[pid] = minimum
        EXPLAIN[pid] = explain
        TECHNIQUE[pid] = technique
        return fn
    return deco


from . import consumer, server, store, crypto, message, fetch, xri, extensions, markup, api  # noqa: E402,F401
