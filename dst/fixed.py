"""Fixed-point arithmetic of generated hardware: values are integers scaled by 2**fraction bits."""

from __future__ import annotations

from fractions import Fraction


def cast(num: int, frac: int, wl, q: str, o: str) -> int:
    """*num* has *frac* fraction bits; the result has those of *wl* = (integer, fraction)."""
    d = frac - wl[1]
    if d > 0:
        v = num >> d
        if q == "mag" and num < 0:
            v += 1
        elif q == "zero" and num < 0 and num & ((1 << d) - 1):
            v += 1
    else:
        v = num << -d
    bits = sum(wl)
    lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    if o == "sat":
        return min(max(v, lo), hi)
    return ((v - lo) & ((1 << bits) - 1)) + lo


def frac_bits(value) -> int:
    """Fraction bits of a dyadic number."""
    f = Fraction(value)
    n = f.denominator.bit_length() - 1
    assert f.denominator == 1 << n
    return n


class Arith:
    """
    The operations of one data type on raw integers (pairs of them if complex).

    *pe_frac* maps an operation name to the fraction bits of the coefficients of its processing
    element: the exact product has that many more, which the sign-adding truncation sees.
    """

    def __init__(self, wl, q, o, cplx, pe_frac):
        self.wl, self.q, self.o, self.cplx, self.pe_frac = wl, q, o, cplx, pe_frac
        self.range_left = False

    def c(self, num, frac):
        return cast(num, frac, self.wl, self.q, self.o)

    def op(self, name, t, p, vals):
        """Raw outputs of operation *t* for raw inputs."""
        f = self.wl[1]
        if self.cplx:
            return self.op_complex(name, t, p, vals)
        if t in ("add", "addsub", "shiftaddsub"):
            a, b = vals
            b >>= p.get("shift", 0) or 0
            v = a + b if p.get("is_add", True) else a - b
            return (self.c(v >> p["shift_output"], f),)
        if t == "cmul":
            k = self.pe_frac[name]
            return (self.c(vals[0] * int(p["value"] * 2**k), f + k),)
        if t == "sym2p":
            k = self.pe_frac[name]
            a, b = vals
            m = (b - a) * int(p["value"] * 2**k)
            return (self.c((b << k) + m, f + k), self.c((a << k) + m, f + k))
        if t == "mads":
            a, b, d = vals
            m = b * d
            if not p["do_addsub"]:
                a = 0
            return (self.c((a << f) + (m if p["is_add"] else -m), 2 * f),)
        if t == "rec":
            a = vals[0]
            v = (1 << 2 * f) // abs(a) if a else 0
            return (self.c(-v if a < 0 else v, f),)
        raise KeyError(t)

    def op_complex(self, name, t, p, vals):
        f = self.wl[1]
        if t in ("addsub", "shiftaddsub"):
            (ar, ai), (br, bi) = vals
            if p.get("mul_j"):
                br, bi = ("neg", bi), br
            sh = p.get("shift", 0) or 0

            def term(b):
                # the sign of j*b is applied before the shift drops bits, as one subtraction
                if isinstance(b, tuple):
                    return -(b[1] >> sh)
                return b >> sh

            s = 1 if p["is_add"] else -1
            out = []
            for a, b in ((ar, br), (ai, bi)):
                out.append(self.c((a + s * term(b)) >> p["shift_output"], f))
            return (tuple(out),)
        if t == "cmul":
            k = self.pe_frac[name]
            v = complex(p["value"])
            cr, ci = int(v.real * 2**k), int(v.imag * 2**k)
            (ar, ai) = vals[0]
            return ((self.c(ar * cr - ai * ci, f + k), self.c(ar * ci + ai * cr, f + k)),)
        raise KeyError(t)
