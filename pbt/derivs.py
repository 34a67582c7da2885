"""Shared pieces of the derivative checks (C02, C03, C04, C09)."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Violation, check
from pbt.models import nsize


def pick(keys, mask):
    """A non-empty, order-varied selection of keys from an integer."""
    keys = list(keys)
    out = [k for i, k in enumerate(keys) if (mask >> (i % 16)) & 1]
    if not out:
        out = [keys[mask % len(keys)]]
    if mask & 0x10000:
        out.reverse()
    return out


MASKS = st.integers(0, 0x1ffff)


def ref_block(m, S, of, wrt, of_idx=None, wrt_idx=None):
    a, b = m.off[(of[0], of[2])]
    c, d = m.off[(wrt[0], wrt[2])]
    blk = S[a:b, c:d]
    if of_idx is not None:
        blk = blk[of_idx, :]
    if wrt_idx is not None:
        blk = blk[:, wrt_idx]
    return blk


def check_block(got, ref, what, rtol, atol_scale=1.0):
    try:
        g = np.asarray(got, dtype=float)
    except (TypeError, ValueError):
        raise Violation('%s: not numeric: %r' % (what, got))
    if g.shape != ref.shape:
        raise Violation('%s: shape %s, expected %s' % (what, g.shape, ref.shape))
    tol = rtol * (atol_scale + np.max(np.abs(ref)) if ref.size else 0.0)
    if not np.all(np.abs(g - ref) <= tol):          # also catches nan
        raise Violation('%s: got %s, expected %s' % (what, g.tolist(), ref.tolist()))


def check_totals(m, S, J, of, wrt, what, rtol, of_idx={}, wrt_idx={}):
    """J: dict return format."""
    check(set(J) == set(m.root_name(k) for k in of), '%s: outputs %s returned, asked for %s', what,
          sorted(J), sorted(m.root_name(k) for k in of))
    # an absolute floor relative to the largest sensitivity of the model
    for o in of:
        row = J[m.root_name(o)]
        check(set(row) == set(m.root_name(k) for k in wrt), '%s: inputs %s returned for %s, asked for %s',
              what, sorted(row), m.root_name(o), sorted(m.root_name(k) for k in wrt))
        for w in wrt:
            ref = ref_block(m, S, o, w, of_idx.get(o), wrt_idx.get(w))
            check_block(row[m.root_name(w)], ref,
                        '%s d %s / d %s' % (what, m.abs_name(o), m.abs_name(w)), rtol)


def check_array(m, S, J, of, wrt, what, rtol, of_idx={}, wrt_idx={}):
    ref = np.vstack([np.hstack([ref_block(m, S, o, w, of_idx.get(o), wrt_idx.get(w)) for w in wrt])
                     for o in of])
    check_block(J, ref, what + ' (array)', rtol)
