"""Builders shared by the checks: from a factor list to modepy objects."""
import modepy as mp


def shape_of(dims, style="tp"):
    """styles: 'tp' TensorProductShape of the simplices, 'cube' Hypercube, 'simplex'."""
    if style == "cube":
        assert all(d == 1 for d in dims)
        return mp.Hypercube(len(dims))
    if style == "simplex":
        return mp.Simplex(*dims)
    if style == "nested" and len(dims) > 1:
        return mp.TensorProductShape(
            (mp.TensorProductShape(tuple(mp.Simplex(d) for d in dims[:-1])),
             mp.Simplex(dims[-1])))
    return mp.TensorProductShape(tuple(mp.Simplex(d) for d in dims))


def space_of(factors, style="tp"):
    if style == "cube":
        assert len({n for _, n in factors}) == 1
        return mp.QN(len(factors), factors[0][1])
    if style == "simplex":
        (d, n), = factors
        return mp.PN(d, n)
    if style == "nested" and len(factors) > 1:
        return mp.TensorProductSpace(
            (mp.TensorProductSpace(tuple(mp.PN(d, n) for d, n in factors[:-1])),
             mp.PN(*factors[-1])))
    return mp.TensorProductSpace(tuple(mp.PN(d, n) for d, n in factors))


def supported(dims):
    """TensorProductShape: at most one factor that is not a line segment."""
    return sum(1 for d in dims if d != 1) <= 1
