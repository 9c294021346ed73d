from .. import core, fam
from .c01 import P as P1


class P(P1):
    id = "C02"
    fams = fam.LPV_FAMS
    rule = P1.rule.replace("time-invariant", "time-varying")

    def known(self, ctx_factory):
        return []


PROP = P()
