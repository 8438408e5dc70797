"""Reference angles of a mapping: read from its last step, or from the tangent plane correction where there is one."""
from symx.core import Inconclusive
from symx.harness import Case

MOD = "stcal.tweakreg.utils"
BOUNDS = "any angles; the listed chains of frames; the rotation anywhere among up to 4 parts of the last step"
ASSUMPTIONS = ["transforms are stand-ins that hold their angles"]


class Value:
    def __init__(self, v):
        self.value = v


class Rotation:
    def __init__(self, v):
        self.angles = Value(v)
        self.parameters = v

    def __getattr__(self, name):
        raise Inconclusive(f"rotation stand-in: {name}")


class Other:
    def __init__(self, n):
        self.n = n


class Chain:
    def __init__(self, parts):
        self.parts = parts

    def __iter__(self):
        return iter(self.parts)

    def __getitem__(self, k):
        if isinstance(k, str):
            for p in self.parts:
                if getattr(p, "name", None) == k:
                    return p
            raise IndexError(k)
        return self.parts[k]

    def __len__(self):
        return len(self.parts)


FRAMES = (("detector", "v2v3", "world"), ("detector", "v2v3", "v2v3vacorr", "world"), ("detector", "v2v3", "v2v3corr", "world"),
          ("detector", "v2v3", "v2v3vacorr", "v2v3corr", "world"), ("detector", "world"), ("detector", "v2v3", "world", "other"), ("detector", "v2v3"))


def harness(E):
    np = E.np
    m = E.mod(MOD)
    frames = E.pick("frames", FRAMES)
    a = E.floats("a", (5,), "f8", lo=-360, hi=360)
    b = E.floats("b", (3,), "f8", lo=-360, hi=360)
    small = E.floats("s", (3,), "f8", lo=-1, hi=1)
    last = E.pick("last", ("first", "middle", "three first", "none", "three only"))
    parts = {"first": [Rotation(a), Other(1)], "middle": [Other(1), Rotation(a), Other(2)], "three first": [Rotation(small), Other(1), Rotation(a)],
             "none": [Other(1), Other(2)], "three only": [Rotation(small)]}[last]
    plane = Rotation(b)
    plane.name = "det_to_optic_axis"
    first = Rotation(small)
    first.name = "else"
    asked = []

    class W:
        available_frames = list(frames)

        def get_transform(self, f, t):
            asked.append((f, t))
            if t == "world":
                return Chain(parts)
            return Chain([first, plane])

    old = m.RotationSequence3D
    m.RotationSequence3D = Rotation
    good = "v2v3" in frames and frames[-1] == "world" and last not in ("none", "three only")
    try:
        got = m._wcsinfo_from_wcs_transform(W())
    except ValueError:
        E.claim("refused exactly for a chain that does not end like this", not good)
        return
    finally:
        m.RotationSequence3D = old
    E.claim("refused for a chain that does not end like this", good)
    corr = "v2v3corr" in frames
    want = [(frames[-2], "world")] + ([("v2v3vacorr" if "v2v3vacorr" in frames else "v2v3", "v2v3corr")] if corr else [])
    E.claim("from the last step, and the step to the corrected frame if there is one", sorted(set(asked)) == sorted(want))
    u = b if corr else a
    E.same("reference angles", E.arr([got[k] for k in ("v2_ref", "v3_ref", "roll_ref", "ra_ref", "dec_ref")]),
           E.arr([3600 * u[0], -3600 * u[1], u[2], -a[4], a[3]]), rtol=1e-12)


CASES = [Case("harness", harness)]
