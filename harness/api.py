"Obligations: a harness function, its parameters and its bounds."


class Ob:
    def __init__(self, name, fn, *args, tier="quick", paths=4000, seconds=60.0, charlen=6, path_seconds=30, ce=2, force=40, cost=1, expect=()):
        """
        :param tier: "quick" obligations run in both tiers, "thorough" ones in the thorough tier only.
        :param expect: Labels of which each has to be reached by some path (guards against vacuity).
        """
        self.name, self.fn, self.args, self.tier = name, fn, args, tier
        self.paths, self.seconds, self.charlen, self.path_seconds = paths, seconds, charlen, path_seconds
        self.ce, self.force, self.cost, self.expect = ce, force, cost, expect


def tname(t):
    "Name of a type, the same in either mode."
    s = t.__name__ if isinstance(t, type) and not hasattr(t, "__origin__") else str(t)
    for a in ("typing.", "harness.kit.", "se_shadow_", "strong_typing.auxiliary.", " "):
        s = s.replace(a, "")
    return s[:90]
