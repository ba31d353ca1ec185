"""Helpers shared by the adapters (run inside the worker, with the real aihwkit imported)."""
import torch

OFF = 999999999  # observation which is not on the integer grid (any value the specifications cannot produce)


def q(x, scale=1.0, tol=2e-3):
    """Integer view of a float on the grid 1/scale."""
    v = float(x) * scale
    if v != v or abs(v) > 1e9:
        return OFF
    r = round(v)
    if abs(v - r) > tol:
        return OFF - 1
    return int(r)


def qv(t, scale=1.0, tol=2e-3):
    """(nested) list of grid integers of a tensor."""
    if hasattr(t, "detach"):
        t = t.detach().cpu()
        if t.dim() == 0:
            return q(t.item(), scale, tol)
        return [qv(x, scale, tol) for x in t] if t.dim() > 1 else [q(x, scale, tol) for x in t.tolist()]
    if isinstance(t, (list, tuple)):
        return [qv(x, scale, tol) for x in t]
    return q(t, scale, tol)


def T(x, scale=1.0):
    """float32 tensor of integers / scale."""
    return torch.tensor(x, dtype=torch.float32) / scale
