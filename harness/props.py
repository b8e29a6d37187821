"""The registry of properties."""


class Prop:
    bounds = ""
    assumptions = ()
    # clauses which deviate from another property but not from this one: C18 and C20 ask for
    # the law of a fresh strategy of the type, which for LossyState is finding C15/KF-permuted-columns
    relative = ()

    def cases(self, run, rnd, thorough):
        raise NotImplementedError


PROPS = {}


def prop(pid):
    def deco(cls):
        PROPS[pid] = cls()
        return cls
    return deco


import p_perm    # noqa: E402,F401
import p_comb    # noqa: E402,F401
import p_dist    # noqa: E402,F401
import p_samp    # noqa: E402,F401
import p_misc    # noqa: E402,F401
import p_fact    # noqa: E402,F401
import p_par     # noqa: E402,F401
import p_r       # noqa: E402,F401
