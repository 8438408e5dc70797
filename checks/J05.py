"""Row slices: the jump step gives the same flags whatever the number of processes."""
from symx.harness import Case

from .J04 import jump_data
from .jumpspec import DNU, JUMP, SAT

BOUNDS = ("images of up to 7 rows x 1..2 columns x 3 groups cut into 2..5 slices (uneven cuts included), with neighbour flagging across slice borders; "
          "all data, noise and flag words over the listed bits; worker processes run one after the other with copied arguments")
ASSUMPTIONS = ["no group is entirely do-not-use in one slice but not in the image (the usable-group count is taken per slice)"]


class Serial:
    """stand-in for multiprocessing: the same results in the same order, arguments copied as pickling would"""

    def __init__(self, n):
        self.n = n

    def cpu_count(self):
        return self.n

    def get_context(self, *a):
        return self

    def Pool(self, *a, **k):  # noqa: N802
        return self

    def starmap(self, f, jobs, *a, **k):
        return [f(*[x.copy() if hasattr(x, "ndim") else x for x in j]) for j in jobs]

    def map(self, f, jobs, *a, **k):
        return [f(j) for j in jobs]

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def harness(E, shape, slices, mask=6, four=True, detect=True, dnu_first=False):
    np = E.np
    ni, ng, ny, nx = shape
    data = E.floats("data", shape, "f4", lo=-1000, hi=60000)
    gdq = E.bits("gdq", shape, "u1", mask=mask)
    if dnu_first:
        gdq[:, 0] = DNU
    pdq = np.zeros((ny, nx), dtype=np.uint32)
    gain = np.ones((ny, nx), dtype=np.float32)
    rn = E.floats("rn", (ny, nx), "f4", lo=1, hi=100)
    m = E.mod("stcal.jump.jump")
    real = m.multiprocessing
    m.multiprocessing = Serial(16)
    try:
        res = []
        for cores in ["none"] + [str(s) for s in slices]:
            j = jump_data(E, data.copy(), gdq.copy(), pdq.copy(), gain.copy(), rn.copy(), cores=cores, flag_4_neighbors=four,
                          max_jump_to_flag_neighbors=100, min_jump_to_flag_neighbors=5)
            res.append(m.detect_jumps_data(j))
    finally:
        m.multiprocessing = real
    for s, r in zip(slices, res[1:]):
        E.same(f"{s} slices give the flags of one", r[0], res[0][0], exact=True)
        E.same(f"{s} slices give the pixel flags of one", r[1], res[0][1], exact=True)
        E.same(f"{s} slices count the same jumps", r[2], res[0][2], exact=True)
    E.cover("jump", (res[0][0] & JUMP) != 0)


CASES = [
    Case("4-rows", harness, shape=(1, 3, 4, 1), slices=(2,)),
    Case("5-rows", harness, shape=(1, 3, 5, 1), slices=(2, 3)),
    Case("3-rows-each", harness, shape=(1, 3, 3, 1), slices=(3,)),
    Case("dnu-first", harness, shape=(1, 4, 3, 1), slices=(2, 3), mask=2, dnu_first=True),
    Case("two-integrations", harness, shape=(2, 3, 3, 1), slices=(2,), mask=4),
    Case("two-columns", harness, shape=(1, 3, 3, 2), slices=(2, 3), mask=4),
    Case("7-rows", harness, shape=(1, 3, 7, 1), slices=(2, 3, 4, 5), tier="thorough"),
]
