"""property id -> (what is decided how, [rule functions])"""
REGISTRY = {}


def rules_for(prop, explanation):
    def deco(fn):
        if prop in REGISTRY:
            REGISTRY[prop][1].append(fn)
        else:
            REGISTRY[prop] = (explanation, [fn])
        return fn
    return deco


from . import removal, conn, uris, copying, trees, memfiles, state, meta, archive, failures, constel    # noqa
