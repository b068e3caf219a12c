SPECS = {}


def spec(pid, **meta):
    def deco(f):
        SPECS[pid] = (f, meta)
        return f
    return deco


from . import stencil, general, poisson, ibm, forcing, io  # noqa
