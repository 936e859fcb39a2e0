"""Proves over the integers the laws that solve.muldiv_query uses (w = 2^64 stands for any modulus)."""
import z3, sys
x, y, n, i, w, q, r = z3.Ints("x y n i w q r")
nat = [x >= 0, y >= 0, n >= 0, n < w, i > 0, i < w, x < w, y < w, n == q * i + r, 0 <= r, r < i, q >= 0]
step = lambda a, b: z3.Implies(a <= b, a * i <= b * i)          # proved below
goals = {
    "monotone": ([x >= 0, i > 0, x <= y], (y - x) * i >= 0),
    "below": (nat + [x <= q, (q - x) * i >= 0, x * i + (q - x) * i == q * i], z3.And(x * i <= n, x * i < w)),
    "above": (nat + [x >= q + 1, (x - q - 1) * i >= 0, x * i == (x - q - 1) * i + q * i + i], x * i > n),
    "strict": (nat + [x + 1 <= y, y * i < w, (y - x - 1) * i >= 0, y * i == (y - x - 1) * i + x * i + i], z3.And(x * i < w, x * i < y * i)),
    "quotients": ([n == q * i + r, 0 <= r, r < i, i > 0, y == x * i + z3.Int("t"), 0 <= z3.Int("t"), z3.Int("t") < i, n <= y, z3.Implies(q >= x + 1, (q - x - 1) * i >= 0),
                   q * i == (q - x - 1) * i + x * i + i], q <= x),
    "zero": (nat + [x * i < w], (x * i == 0) == (x == 0)),
}
bad = 0
for k, (pre, goal) in goals.items():
    s = z3.Solver()
    s.set("timeout", 20000)
    s.add(*pre)
    s.add(z3.Not(goal))
    res = s.check()
    print(k, res)
    bad += res != z3.unsat
sys.exit(bad != 0)
