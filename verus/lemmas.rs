// Arithmetic facts behind the specification terms of kani/src/muldiv.rs, for all operands.
// verus verus/lemmas.rs
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {

spec fn b32() -> int { 0x1_0000_0000 }
spec fn b64() -> int { 0x1_0000_0000_0000_0000 }

// hi_u as muldiv.rs computes it, over the integers
spec fn mid(x: int, y: int) -> int { (x / b32()) * (y % b32()) + ((x % b32()) * (y % b32())) / b32() }
spec fn low(x: int, y: int) -> int { (x % b32()) * (y / b32()) + mid(x, y) % b32() }
spec fn hi_u(x: int, y: int) -> int { (x / b32()) * (y / b32()) + mid(x, y) / b32() + low(x, y) / b32() }

// no intermediate value exceeds 64 bits, and hi_u is the upper half of the product
proof fn mul_split(x: int, y: int)
    requires 0 <= x < b64(), 0 <= y < b64(),
    ensures
        mid(x, y) < b64(), low(x, y) < b64(), hi_u(x, y) < b64(),
        hi_u(x, y) == (x * y) / b64(),
{
    let b = b32();
    let (xh, xl, yh, yl) = (x / b, x % b, y / b, y % b);
    assert(0 <= xh < b && 0 <= yh < b && 0 <= xl < b && 0 <= yl < b);
    assert(x == xh * b + xl && y == yh * b + yl) by (nonlinear_arith)
        requires xh == x / b, xl == x % b, yh == y / b, yl == y % b, b == 0x1_0000_0000;
    let ll = xl * yl;
    assert(0 <= ll <= (b - 1) * (b - 1)) by (nonlinear_arith) requires 0 <= xl < b, 0 <= yl < b, ll == xl * yl;
    let (hl, lh, hh) = (xh * yl, xl * yh, xh * yh);
    assert(0 <= hl <= (b - 1) * (b - 1)) by (nonlinear_arith) requires 0 <= xh < b, 0 <= yl < b, hl == xh * yl;
    assert(0 <= lh <= (b - 1) * (b - 1)) by (nonlinear_arith) requires 0 <= xl < b, 0 <= yh < b, lh == xl * yh;
    assert(0 <= hh <= (b - 1) * (b - 1)) by (nonlinear_arith) requires 0 <= xh < b, 0 <= yh < b, hh == xh * yh;
    let m = mid(x, y);
    let l = low(x, y);
    let h = hi_u(x, y);
    let (q0, r0) = (ll / b, ll % b);
    assert(ll == q0 * b + r0 && 0 <= r0 < b && 0 <= q0 < b) by (nonlinear_arith)
        requires q0 == ll / b, r0 == ll % b, 0 <= ll <= (b - 1) * (b - 1), b == 0x1_0000_0000;
    assert(m == hl + q0);
    let (q1, r1) = (m / b, m % b);
    assert(m == q1 * b + r1 && 0 <= r1 < b) by (nonlinear_arith)
        requires q1 == m / b, r1 == m % b, b == 0x1_0000_0000;
    assert(l == lh + r1);
    let (q2, r2) = (l / b, l % b);
    assert(l == q2 * b + r2 && 0 <= r2 < b) by (nonlinear_arith)
        requires q2 == l / b, r2 == l % b, b == 0x1_0000_0000;
    assert(h == hh + q1 + q2);
    assert((xh * b + xl) * (yh * b + yl) == (xh * b) * (yh * b) + (xh * b) * yl + xl * (yh * b) + xl * yl) by {
        lemma_mul_is_distributive_add_other_way(yh * b + yl, xh * b, xl);
        lemma_mul_is_distributive_add(xh * b, yh * b, yl);
        lemma_mul_is_distributive_add(xl, yh * b, yl);
    }
    assert((xh * b) * (yh * b) == hh * (b * b)) by (nonlinear_arith) requires hh == xh * yh;
    assert((xh * b) * yl == hl * b) by (nonlinear_arith) requires hl == xh * yl;
    assert(xl * (yh * b) == lh * b) by (nonlinear_arith) requires lh == xl * yh;
    assert((hl + lh) * b == hl * b + lh * b) by (nonlinear_arith);
    assert(x * y == hh * (b * b) + (hl + lh) * b + ll);
    // (hl + lh) * b + ll == (m + lh) * b + r0 == (q1*b + l) * b + r0 == (q1 + q2)*b*b + r2*b + r0
    assert(x * y == h * (b * b) + (r2 * b + r0)) by (nonlinear_arith)
        requires
            x * y == hh * (b * b) + (hl + lh) * b + ll,
            ll == q0 * b + r0, m == hl + q0, m == q1 * b + r1, l == lh + r1, l == q2 * b + r2,
            h == hh + q1 + q2;
    assert(b * b == b64()) by (nonlinear_arith) requires b == 0x1_0000_0000, b64() == 0x1_0000_0000_0000_0000;
    let rest = r2 * b + r0;
    assert(0 <= rest < b * b) by (nonlinear_arith)
        requires 0 <= r2 < b, 0 <= r0 < b, rest == r2 * b + r0;
    lemma_fundamental_div_mod_converse(x * y, b64(), h, rest);
    assert(m < b64() && l < b64());
    assert(x * y < b64() * b64()) by (nonlinear_arith) requires 0 <= x < b64(), 0 <= y < b64();
    assert(h < b64()) by (nonlinear_arith)
        requires x * y == h * b64() + rest, 0 <= rest, x * y < b64() * b64(), b64() > 0;
}

// upper half of -(x * y) in 128-bit two's complement: !hi, plus one if the lower half is zero
proof fn mul_negated(p: int)
    requires 0 <= p < b64() * b64(),
    ensures
        (-p) / b64() == -(p / b64()) - 1 + (if p % b64() == 0 { 1int } else { 0 }),
        (-p) % b64() == 0 <==> p % b64() == 0,
{
    let (q, r) = (p / b64(), p % b64());
    lemma_fundamental_div_mod(p, b64());
    assert(p == b64() * q + r && 0 <= r < b64());
    if r == 0 {
        assert(-p == -q * b64()) by (nonlinear_arith) requires p == b64() * q + r, r == 0;
        lemma_fundamental_div_mod_converse(-p, b64(), -q, 0);
    } else {
        assert(-p == (-q - 1) * b64() + (b64() - r)) by (nonlinear_arith) requires p == b64() * q + r;
        lemma_fundamental_div_mod_converse(-p, b64(), -q - 1, b64() - r);
    }
}

fn main() {}
}
