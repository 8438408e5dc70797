"""Reference model of two-point-difference jump detection, written from the documented algorithm."""
SAT, DNU, JUMP, NGV, REF = 2, 1, 4, 8, 32
DQ = {"GOOD": 0, "DO_NOT_USE": DNU, "SATURATED": SAT, "JUMP_DET": JUMP, "NO_GAIN_VALUE": NGV, "REFERENCE_PIXEL": REF}


def params(E, **kw):
    """two-point parameters with the package defaults unless overridden"""
    np = E.np
    p = E.mod("stcal.jump.twopoint_difference_class").TwoPointParams()
    p.normal_rej_thresh, p.two_diff_rej_thresh, p.three_diff_rej_thresh = 4.0, 6.0, 5.0
    p.nframes = 1
    p.flag_4_neighbors = False
    p.max_jump_to_flag_neighbors, p.min_jump_to_flag_neighbors = 200, 10
    p.fl_good, p.fl_sat, p.fl_jump, p.fl_ngv, p.fl_dnu, p.fl_ref = 0, SAT, JUMP, NGV, DNU, REF
    p.after_jump_flag_e1 = p.after_jump_flag_e2 = 0.0
    p.after_jump_flag_n1 = p.after_jump_flag_n2 = 0
    p.minimum_groups, p.minimum_sigclip_groups, p.only_use_ints = 3, 100, True
    p.min_diffs_single_pass = 10
    p.dt_group, p.n_reads_groupdiff = np.ones(1), np.ones(1) * 2
    for k, v in kw.items():
        setattr(p, k, v)
    return p


def pattern(np, rp):
    """group spacing and reads per difference of a read pattern"""
    t = [sum(r) / len(r) for r in rp]
    return np.array([b - a for a, b in zip(t, t[1:])]), np.array([float(len(a) + len(b)) for a, b in zip(rp, rp[1:])])


def ninputs(E, shape, hi=60000, mask=7, integer=False):
    ni, ng, ny, nx = shape
    data = E.floats("data", shape, "f4", lo=-1000, hi=hi, integer=integer)
    gdq = E.bits("gdq", shape, "u1", mask=mask)
    rn = E.floats("rn", (ny, nx), "f4", lo=1, hi=100)
    return data, gdq, rn


def concrete_flags(E, name, n, options=(0, DNU, SAT)):
    """a flag word per group, one path per combination"""
    return [E.pick(f"{name}{k}", list(options)) for k in range(n)]
