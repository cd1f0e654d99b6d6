"""C21 material coupling: emission moments are the projection of the temperature law applied to the represented energy."""
import numpy as np, math
import oracle as O

RULE = ("one case = one temperature law, heat capacity and order with a sequence of cells and energy coefficients (positive, of either sign, zero, large); every emission moment is compared with the projection of the "
        "law applied to the represented energy density; distinct = distinct (law, M, energy sign class, relation) observed")
ASSUMPTIONS = ["slab geometry", "the quartic law is projected with the package's own 2M+1 point rule: exact for M <= 1, compared to three times that rule's error otherwise"]
BUDGET = {"quick": 120, "thorough": 900}
A_RAD = 0.0137225


def cases(rng, tier):
    out = []
    for k in range(900 if tier == "quick" else 900):
        out.append({"law": k % 3, "M": rng.choice([0, 1, 2, 3, 5, 8]), "cv": rng.choice([0.03, 0.3, rng.uniform(0.01, 2)]), "sign": rng.choice(["pos", "mixed", "zero", "neg"]), "seed": rng.randrange(10 ** 9)})
    return out


def run_case(env, case, rec):
    M, law = case["M"], case["law"]
    cv = case["cv"] if law == 1 else 0.0
    c = env.api.cfg(geometry="slab", N_space=4, M=M, N_ang=4, kind="square_IC", transfer=law != 2, temp_function=law if law < 2 else 0, cv0=cv, x0=0.5)
    T = env.api.mod("solver_classes.radiative_transfer").T_function(env.api.build(c))
    r = np.random.default_rng(case["seed"])
    for it in range(6):
        a = r.uniform(-3, 3); b = a + math.exp(r.uniform(-6, 1))
        e = r.normal(size=M + 1) * .3 ** np.arange(M + 1) * math.sqrt(b - a) * math.exp(r.choice([r.uniform(-3, 1), r.uniform(-9, 3)]))
        if case["sign"] in ("pos", "neg"): e[0] = 2.2 * np.abs(e).sum() * (1 if case["sign"] == "pos" else -1)
        if case["sign"] == "zero": e *= 0
        e0 = e.copy()
        T.make_H(a, b, e)
        H = np.array(T.H)
        rec.ok(np.array_equal(e, e0), "input-changed", "the energy coefficients were modified")
        rec.ok(np.isfinite(H).all() and H.shape == (M + 1,), "finite", "law %d: emission moments %s" % (law, H))
        tag = "law %d M=%d cell [%.4g,%.4g] energy %s" % (law, M, a, b, case["sign"])
        if law == 2: rec.ok(np.all(H == 0), "uncoupled", tag + ": emission in a problem without coupling")
        elif law == 0: rec.close(H, e, 1e-11, "linear", tag + ": the emission of the linear law is the energy itself", scale=np.abs(e).max() + 1e-30)
        else:
            def proj(n):
                x, w = O.gl(n, a, b)
                ex = sum(e[j] * O.Bleg(j, x, a, b) for j in range(M + 1))
                return np.array([(w * (ex * A_RAD / cv) ** 4 * O.Bleg(j, x, a, b)).sum() for j in range(M + 1)])
            want = proj(5 * M + 6)
            slack = 3 * np.abs(proj(2 * M + 1) - want).max()
            sc = np.abs(want).max() + 1e-30
            rec.close(H, want, 1e-10 + slack / sc, "quartic", tag, scale=sc)
            if case["sign"] != "zero": rec.ok(H[0] > 0, "positive", tag + ": mean emission %g of a non-zero temperature" % H[0])
        rec.bucket(law, M, case["sign"])
        xs = r.uniform(a, b, 7)
        rec.close(T.make_e(xs, a, b), sum(e[j] * O.Bleg(j, xs, a, b) for j in range(M + 1)), 1e-11, "energy", tag + ": represented energy", scale=np.abs(e).sum() * math.sqrt(2 * M + 1) / math.sqrt(b - a) + 1e-30)
        # no memory of earlier cells
        F = env.api.mod("solver_classes.radiative_transfer").T_function(env.api.build(c)) if it == 5 else None
        if F is not None: F.make_H(a, b, e); rec.close(H, F.H, 1e-14, "history", tag, scale=np.abs(H).max() + 1e-30)
