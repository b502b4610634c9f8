"""Scenarios that every converter check shares."""

from . import dom


def names(bases, make, compare):
    """every program under every way of naming its variables, of mixed or the same types"""

    def run(ch):
        spec = ch.choose("base", bases, free=True)
        spec = dom.renamed(spec, ch.choose("names", sorted(dom.NAMINGS), free=True))
        kind = ch.choose("types", ["given", "b", "i"], free=True)
        if kind != "given":
            spec["vars"] = [(v[0],) + (("b", 0, 1) if kind == "b" else ("i", -(k % 2), 1))
                            for k, v in enumerate(spec["vars"])]
        if ch.flag("reversed", free=True):
            spec = dom.reordered(spec)
        conv = make()
        return compare(ch, spec, conv.convert(dom.build(spec)), conv)

    return run


def reuse(bases, make, compare, accept=lambda spec: True):
    """one converter for any two programs in turn, the same names meaning other variables; the
    points of each are interpreted right after its conversion"""

    def run(ch):
        sake = [s for s in dom.namesakes(bases) if accept(s)]
        conv = make()
        out = []
        for k in range(2):
            spec = ch.choose("program %d" % k, sake, free=True)
            out.append(compare(ch, spec, conv.convert(dom.build(spec)), conv))
        return out

    return run
