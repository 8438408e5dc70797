"""Number of processes."""
from symx.harness import Case

BOUNDS = "all numbers of chunks and cores up to 2^31; requests by word or by any number up to 200"
ASSUMPTIONS = ["requests by number are positive"]


def harness(E, words):
    f = E.mod("stcal.multiprocessing").compute_num_cores
    w = E.pick("request", words)
    n = E.ints("chunks", (), lo=1, hi=2 ** 31)
    a = E.ints("available", (), lo=1, hi=2 ** 31)
    n, a = (int(n), int(a)) if not E.sym else (n, a)
    got = f(w, n, a)
    if w.isdigit():
        want = int(w)
    else:
        want = {"all": a, "half": a // 2, "quarter": a // 4}.get(w, 1)
    want = E.ite(want < 1, 1, want) if not isinstance(want, int) else max(1, want)
    want = E.ite(a < want, a, want)
    want = E.ite(n < want, n, want)
    E.same("as many as requested, but no more than there are cores or chunks", got, want, exact=True)
    E.claim("at least one", got >= 1)
    E.cover("limited by chunks", got == n)
    E.cover("limited by cores", got == a)


CASES = [
    Case("words", harness, words=("none", "None", "NONE", "one", "quarter", "half", "all", "sixth", "")),
    Case("numbers", harness, words=tuple(str(i) for i in (1, 2, 3, 4, 7, 8, 10, 16, 32, 100, 200))),
]
