"""The library's plain-data functions, as one object of kind "lib"."""
import enc
import mk
import zoo
from session import LIB, LibAdapter, Opt, Session


def table():
    import pure_sklearn.base as b
    import pure_sklearn.metrics.pairwise as pm
    import pure_sklearn.preprocessing as pp
    import pure_sklearn.utils as u
    t = {n: getattr(b, n, None) for n in ("dot", "dot_2d", "matmult_same_dim", "transpose", "expit", "sfmax", "logsumexp", "safe_log", "safe_exp", "operate_2d",
                                    "apply_2d", "apply_2d_sparse", "apply_axis_2d", "ravel", "slice_column", "accumu")}
    t.update({n: getattr(u, n, None) for n in ("tosparse", "todense", "sparse_list", "issparse", "shape", "ndim")})
    t["tosparse_todense"] = lambda A: u.todense(u.tosparse(A))

    def again(A):                # the dense form, written over, and taken once more
        y = u.todense(A)
        for r in y:
            for j in range(len(r)):
                r[j] = -7.25
        y.append([1.0])
        return u.todense(A)
    t["todense_again"] = again

    def over(A):
        s = u.tosparse(A)
        for r in u.tosparse(A):
            r[0] = -7.25
        return u.todense(s)
    t["tosparse_again"] = over
    t.update({n: getattr(pm, n) for n in ("linear_kernel_pure", "cosine_similarity_pure", "cosine_distances_pure")})
    t["normalize_pure"] = pp.normalize_pure
    return {n: f for n, f in t.items() if f is not None}


class LibCase:
    name, ad, art, methods, inputs, sparse, kw = "lib", LIB, {"k": "lib"}, [], [], False, {}


def word(s, value=None):
    return Opt(s if value is None else value, {"f": "s", "s": s})


def fn(name):
    return Opt(LibAdapter.FN[name], {"f": "s", "s": {"max2": "max"}.get(name, name)})


def me(A):
    """The same matrix as the first argument, as the same object or left out."""
    return dict(enc.content(A), self=True)


class Lib:
    def __init__(self, ctx, per_trace=60):
        self.ctx, self.per = ctx, per_trace
        self.table = table()
        self.s, self.k, self.n = None, 0, 0

    def ask(self, m, *args, look=True):
        if m not in self.table:      # a helper that is not there cannot be wrong
            return
        if self.s is None or self.k >= self.per:
            self.n += 1
            self.s = Session(self.ctx.scn, "lib/%d" % self.n, LibCase, src="library")
            self.o = self.s.lib(self.table)
            self.k = 0
        self.k += 1
        self.s.ask(self.o, m, list(args), look)


def forms(A, rng):
    """The dense matrix, and the same as a sparse_list in clean and messy form."""
    from drivers import sparse_form
    return [A, zoo.to_sparse(A), sparse_form(A, rng, 1.0)]


def pairs(ctx, L, A, B):
    rng = ctx.rng
    for X in forms(A, rng):
        for m in ("linear_kernel_pure", "cosine_similarity_pure", "cosine_distances_pure"):
            L.ask(m, X, B)
    for m in ("linear_kernel_pure", "cosine_similarity_pure", "cosine_distances_pure"):
        L.ask(m, A, Opt(None, me(A)))
        L.ask(m, A, Opt(A, me(A)))


def c18(ctx):
    rng = ctx.rng
    L = Lib(ctx)
    for i in range(ctx.n(40, 600)):
        if ctx.late():
            break
        n = rng.choice([1, 2, 3, 5, 12])
        r1, r2 = rng.choice([1, 2, 4]), rng.choice([1, 2, 5])
        f = rng.choice([zoo.cell, lambda r: r.choice([0.0, 0, 1, -1, 3.0]), lambda r: r.choice([1e-8, 1e8, 0.0, -2.5]), lambda r: abs(zoo.dy(r)),
                        lambda r: r.choice([0.0, 1e-13, -1e-60, 3e-13])])
        A, B = zoo.mat(rng, r1, n, f), zoo.mat(rng, r2, n, f)
        if rng.random() < 0.4:
            A[rng.randrange(r1)] = [0.0] * n
        if rng.random() < 0.3:
            B[rng.randrange(r2)] = [0.0] * n
        if rng.random() < 0.3:
            B[0] = [-v for v in A[0]]
        elif rng.random() < 0.5:     # nearly the same direction
            B[0] = [2 * v for v in A[0]]
            j = rng.randrange(n)
            B[0][j] += rng.choice([1e-3, 1e-4, 1e-5, 1e-6]) * max(1.0, max(abs(v) for v in B[0]))
        pairs(ctx, L, A, B)
        if i % 2:            # an equal matrix is not the same matrix
            C = [list(r) for r in A]
            L.ask("cosine_distances_pure", A, C)
            L.ask("cosine_similarity_pure", A, C)
            L.ask("cosine_distances_pure", zoo.to_sparse(A), C)
            L.ask("cosine_distances_pure", A, C[::-1])
        if i % 4 == 0:       # refusals
            for m in ("linear_kernel_pure", "cosine_similarity_pure", "cosine_distances_pure"):
                W = zoo.mat(rng, r2, n + rng.choice([1, 2]), f)
                L.ask(m, A, W)
                L.ask(m, W, A)
                L.ask(m, zoo.to_sparse(A), W)
                L.ask(m, A, A[0])
                L.ask(m, A[0], A)
                L.ask(m, [1.0] * n, Opt(None, {"f": "V", "v": ["1"] * n, "self": True}))
                L.ask(m, A, zoo.to_sparse(B))
                L.ask(m, zoo.to_sparse(A), Opt(None, dict(enc.content(zoo.to_sparse(A)), self=True)))
        if len(ctx.scn.traces) > 200:
            ctx.flush()
            L.s = None
    for A, B in mk.matrices(ctx):
        pairs(ctx, L, A, B)
        if len(ctx.scn.traces) > 200:
            ctx.flush()
            L.s = None
    big = zoo.mat(rng, 70, 3, zoo.dy)
    L.ask("cosine_distances_pure", big[:40], big[35:], look=False)
    L.ask("cosine_distances_pure", big[:30], Opt(None, me(big[:30])), look=False)
    L.ask("linear_kernel_pure", zoo.mat(rng, 2, 150), zoo.mat(rng, 3, 150), look=False)


def helpers(ctx, L, A, B, rng):
    """Every helper on one matrix and one partner of the same shape."""
    n, r = len(A[0]), len(A)
    sp = forms(A, rng)
    sb = forms(B, rng)
    for X in sp:
        L.ask("shape", X)
        L.ask("ndim", X)
        L.ask("issparse", X)
        L.ask("dot_2d", X, B)
        for norm in ("l1", "l2", "max"):
            L.ask("normalize_pure", X, word(norm), word("1", 1))
            L.ask("normalize_pure", X, word(norm), word("0", 0))
        L.ask("apply_axis_2d", X, fn("sum"), word("1", 1))
        L.ask("apply_axis_2d", X, fn("sum"), word("0", 0))
        for j in sorted({0, n - 1, n // 2}):
            L.ask("slice_column", X, Opt(j, {"f": "I", "i": j}))
        for cols in ([n - 1, 0], list(range(n)), [n // 2], [0, n - 1, 0, n // 2, 0]):
            L.ask("slice_column", X, Opt(cols, {"f": "V", "v": [], "c": cols}))
            L.ask("slice_column", X, Opt(tuple(cols), {"f": "V", "v": [], "c": cols}))
        L.ask("transpose", X)
        L.ask("ravel", X)
        f = rng.choice(["abs", "neg", "double", "square"])
        L.ask("apply_2d", X, fn(f))
        L.ask("apply_2d_sparse", X, fn(f))
        L.ask("operate_2d", X, B, fn(rng.choice(["add", "sub", "mul", "max2"])))
        for Y in sb:
            L.ask("matmult_same_dim", X, Y)
    L.ask("operate_2d", A, sb[1], fn("add"))
    L.ask("tosparse", A)
    L.ask("sparse_list", A)
    L.ask("tosparse_todense", A)
    L.ask("todense", sp[1])
    L.ask("todense", sp[2])
    L.ask("todense_again", sp[1])
    L.ask("todense_again", sp[2])
    L.ask("tosparse_again", A)
    for a in ("max", "min"):
        L.ask("apply_axis_2d", A, fn(a), word("1", 1))
        L.ask("apply_axis_2d", A, fn(a), word("0", 0))
    L.ask("apply_axis_2d", A, fn("sum"), word("2", 2))
    L.ask("normalize_pure", A, word("l3"), word("1", 1))
    L.ask("normalize_pure", A, word("l1"), word("2", 2))
    L.ask("dot", A[0], B)
    row = dict(sp[2][0])
    L.ask("dot", Opt(row, {"f": "S", "n": n, "rows": [{"c": list(row), "v": enc.nums(row.values())}]}), B)
    L.ask("accumu", A[0])
    L.ask("sfmax", A[0])
    L.ask("logsumexp", A[0])
    L.ask("logsumexp", B[0] + B[0])
    if r > 1 or n > 1:
        C = [x + [1.0] for x in B]
        L.ask("matmult_same_dim", A, C)
        L.ask("operate_2d", A, C, fn("add"))
        L.ask("matmult_same_dim", A, B + B[:1])


def c20(ctx):
    rng = ctx.rng
    L = Lib(ctx, 120)
    for i in range(ctx.n(26, 400)):
        if ctx.late():
            break
        n, r = rng.choice([1, 2, 3, 6, 13]), rng.choice([1, 2, 3, 5])
        f = rng.choice([zoo.cell, lambda q: q.choice([0.0, 0, 1, -1, 3.0]), lambda q: -abs(zoo.dy(q)), lambda q: q.choice([0.0, 0.0, 2.5]),
                        lambda q: q.choice([0.0, 1e-13, -1e-100, 1e-7, 1e-140, 1.0])])
        A, B = zoo.mat(rng, r, n, f), zoo.mat(rng, r, n, f)
        if rng.random() < 0.4:
            A[rng.randrange(r)] = [0.0] * n
        if i % 3 == 1:           # whole and fractional numbers mixed: the first entry says nothing about the others
            A[0][0] = rng.choice([1, 0, 3, True])
            B[0][0] = rng.choice([0, 2, -5])
            A[-1][-1], B[-1][-1] = 2.5, -0.25
            A[0] = A[0][:1] + [v + 0.5 for v in A[0][1:]]
        helpers(ctx, L, A, B, rng)
        if len(ctx.scn.traces) > 200:
            ctx.flush()
            L.s = None
    for A, B in mk.matrices(ctx):
        for X in (A, B):
            helpers(ctx, L, X, A if len(A) == len(X) else B, rng)
        if len(ctx.scn.traces) > 200:
            ctx.flush()
            L.s = None
    for v in [0.0, 0, 1, 1.0, -1.0, 1e-300, 5e-324, 1e308, -1e308, 700.0, 709.0, 710.0, -700.0, -746.0, -800.0, 1e6, -1e6, 0.5, 36.0, -36.0] + \
             [zoo.dy(rng, -400, 400) for _ in range(ctx.n(10, 60))]:
        for m in ("safe_log", "safe_exp", "expit"):
            L.ask(m, [v] if False else Opt(v, {"f": "V", "v": [enc.num(v)]}))
    for v in ([1000.0, 1000.0], [1e308, 0.0], [-1e308, -1e308], [700.0, 710.0, 720.0], [-745.0, -750.0], [0.0], [5], [1e6, -1e6, 1e6], [-1000.0, -1001.0],
              [3.0] * 50):
        L.ask("sfmax", v)
        L.ask("logsumexp", v)
    for m in ("tosparse", "sparse_list", "tosparse_todense", "transpose", "ravel"):
        L.ask(m, [[5e-324, 0.0, -5e-324], [1e-300, -0.0, 1e300]])
    big = zoo.mat(rng, 1030, 2)
    L.ask("tosparse_todense", big, look=False)
    L.ask("transpose", big, look=False)
    L.ask("normalize_pure", big, word("l2"), word("1", 1), look=False)
    wide = zoo.mat(rng, 2, 300)
    helpers(ctx, L, wide, zoo.mat(rng, 2, 300), rng)
    n = rng.choice([41, 64, 100])
    for z in ([[0.0] * n], [[0.0] * (n - 1) + [1.0]], [[0.0] * n, [0.0] * (n - 1) + [2.0], [0.0] * n]):
        A = zoo.mat(rng, 2, n, lambda q: q.choice([0.0, 0.0, 0.0, 1.5])) + z      # narrow at the end
        helpers(ctx, L, A, zoo.mat(rng, len(A), n), rng)
