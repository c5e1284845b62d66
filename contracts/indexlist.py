"""C01: index lists (class Indexlist).
The abstract value of a list is the finite sequence number[0..length)."""
from qpv.dsl import *

A = z3.ArraySort(Int, Int)
INV = z3.Function("INV", A, Int, Int, Int)           # choice: position of p in iSort (Hilbert epsilon)
FI = z3.Function("FI", A, A, Int, Int, Int)          # findInsert as a function of the representation


def inv(L, p):
    return INV(L.iSort.arr, L.length, p)


def fi(L, x):
    return FI(L.number.arr, L.iSort.arr, L.length, x)


def alloc(L):
    return [("len-range", And(0 <= L.length, L.length <= L.physicallength)),
            ("alloc", And(Implies(L.physicallength > 0, And(Not(L.number.null), Not(L.iSort.null))),
                          Implies(L.physicallength == 0, And(L.number.null, L.iSort.null)),
                          Implies(L.physicallength > 0, L.number.size == L.physicallength),
                          Implies(L.physicallength > 0, L.iSort.size == L.physicallength)))]


def sorted_(L):
    n = L.length
    return [("iSort-range", forall(lambda k: Implies(rng(k, 0, n), rng(L.iSort[k], 0, n)), pats=lambda k: [L.iSort[k]])),
            ("iSort-sorts", forall(lambda j, k: Implies(And(0 <= j, j < k, k < n), L.number[L.iSort[k]] - L.number[L.iSort[j]] >= k - j), 2,
                                   pats=lambda j, k: [[L.iSort[j], L.iSort[k]]]))]


def surj(L):
    n = L.length
    return [("iSort-onto", forall(lambda p: Implies(rng(p, 0, n), And(rng(inv(L, p), 0, n), L.iSort[inv(L, p)] == p)),
                                  pats=lambda p: [inv(L, p), L.number[p]]))]


def surj_by(L, cands):
    """prove surjectivity by a finite set of candidate preimages (choice axiom then gives surj(L))"""
    n = L.length
    return [("iSort-onto", forall(lambda p: Implies(rng(p, 0, n), Or([And(rng(c, 0, n), L.iSort[c] == p) for c in cands(p)]))))]


def wf(L):
    if L.number.none or L.iSort.none:
        return alloc(L)
    return alloc(L) + sorted_(L) + surj(L)


def distinct(L):
    n = L.length
    return forall(lambda j, k: Implies(And(rng(j, 0, n), rng(k, 0, n), j != k), L.number[j] != L.number[k]), 2)


def member(L, x, k=None):
    return Not(forall(lambda q: Implies(rng(q, 0, L.length), L.number[q] != x)))


def notmember(L, x):
    return forall(lambda q: Implies(rng(q, 0, L.length), L.number[q] != x), pats=lambda q: [L.number[q]])


def isprover(c):
    return c.frame is not None


def unchanged(c):
    o, n = c.old.this, c.new.this
    return [("length-same", n.length == o.length)]


def setup(R):
    E = None

    R.add("Indexlist::findInsert", requires=lambda c: wf(c.old.this),
          ensures=lambda c: find_post(c, c.new.this, c.old.argi(0), c.ret), pure=True,
          )

    def find_post(c, L, x, r):
        out = [("range", And(-1 <= r, r < L.length)),
               ("below", forall(lambda k: Implies(And(0 <= k, k <= r), L.number[L.iSort[k]] <= x), pats=lambda k: [L.iSort[k]])),
               ("above", forall(lambda k: Implies(And(r < k, k < L.length), x < L.number[L.iSort[k]]), pats=lambda k: [L.iSort[k]]))]
        if not isprover(c):
            out.append(("function", r == fi(L, x)))
        return out

    @R.loop("Indexlist::findInsert", "0")
    def _(c):
        L, x = c.new.this, c.new.argi(0)
        f, l = c.v("fst"), c.v("lst")
        return [("range", And(0 <= f, f < l, l < L.length)),
                ("below", L.number[L.iSort[f]] <= x), ("above", x < L.number[L.iSort[l]])]

    R.add("Indexlist::getIndex", requires=lambda c: wf(c.old.this), pure=True,
          ensures=lambda c: [
              ("found", Implies(c.ret >= 0, And(c.ret < c.old.this.length, c.old.this.number[c.ret] == c.old.argi(0)))),
              ("not-found", Implies(c.ret < 0, And(c.ret == -1, notmember(c.old.this, c.old.argi(0)))))])

    R.add("Indexlist::isMember", requires=lambda c: wf(c.old.this), pure=True,
          ensures=lambda c: [
              ("bool", Or(c.ret == 0, c.ret == 1)),
              ("iff-member", (c.ret == 0) == notmember(c.old.this, c.old.argi(0)))])

    R.add("Indexlist::getNumber", requires=lambda c: alloc(c.old.this), pure=True,
          ensures=lambda c: [
              ("in-range", Implies(rng(c.old.argi(0), 0, c.old.this.length), c.ret == c.old.this.number[c.old.argi(0)])),
              ("out-of-range", Implies(Or(c.old.argi(0) < 0, c.old.argi(0) >= c.old.this.length),
                                       c.ret == -c.E["RET_INDEXLIST_OUTOFBOUNDS"]))])

    def add_post(c):
        o, n, x = c.old.this, c.new.this, c.old.argi(0)
        full = o.length >= o.physicallength
        out = [("code", c.ret == If(full, z3.IntVal(c.E["RET_INDEXLIST_EXCEEDS_MAX_LENGTH"]), z3.IntVal(0))),
               ("phys", n.physicallength == o.physicallength),
               ("length", n.length == If(full, o.length, o.length + 1)),
               ("appended", Implies(Not(full), n.number[o.length] == x)),
               ("prefix-kept", forall(lambda k: Implies(rng(k, 0, o.length), n.number[k] == o.number[k]), pats=lambda k: [n.number[k], o.number[k]])),
               ("full-unchanged", Implies(full, forall(lambda k: Implies(rng(k, 0, o.length), n.iSort[k] == o.iSort[k]), pats=lambda k: [n.iSort[k]])))]
        if isprover(c):
            r = FI(n.number.arr, o.iSort.arr, o.length, x)
            out += [("lemma:order", Implies(Not(full), And(n.number[n.iSort[r + 1]] == x, forall(lambda j: Implies(rng(j, 0, n.length), And(
                Implies(j <= r, And(n.number[n.iSort[j]] == o.number[o.iSort[j]], x - o.number[o.iSort[j]] >= r + 1 - j)),
                Implies(j > r + 1, And(n.number[n.iSort[j]] == o.number[o.iSort[j - 1]], o.number[o.iSort[j - 1]] - x >= j - r - 1)))), pats=lambda j: [n.iSort[j]]))))]
        out += [("wf:" + a, b) for a, b in sorted_(n)]
        if isprover(c):
            # candidate preimages of position p in the new iSort
            out += [("wf:" + a, b) for a, b in surj_by(n, lambda p: [
                inv(o, p), inv(o, p) + 1,
                FI(n.number.arr, o.iSort.arr, o.length, x) + 1])]
        else:
            out += [("wf:" + a, b) for a, b in surj(n)]
        return out

    R.add("Indexlist::addNumber",
          requires=lambda c: wf(c.old.this) + [("new-element", notmember(c.old.this, c.old.argi(0)))],
          ensures=add_post,
          modifies=lambda c: [mfield(c.old.this, "length")] + marr(c.old.this.number) + marr(c.old.this.iSort))

    @R.loop("Indexlist::addNumber", "0")
    def _(c):
        o, n = c.ent.this, c.new.this
        i, j = c.v("i"), c.v("j")
        return [("range", And(j + 1 <= i, i <= o.length)),
                ("shifted", forall(lambda k: Implies(And(i < k, k <= o.length), n.iSort[k] == o.iSort[k - 1]), pats=lambda k: [n.iSort[k]])),
                ("rest", forall(lambda k: Implies(And(0 <= k, k <= i, k < o.length), n.iSort[k] == o.iSort[k]), pats=lambda k: [n.iSort[k]]))]

    def remove_post(c):
        o, n, x = c.old.this, c.new.this, c.old.argi(0)
        nm = notmember(o, x)
        out = [("code", c.ret == 0), ("phys", n.physicallength == o.physicallength),
               ("absent-unchanged", Implies(nm, And(n.length == o.length,
                    forall(lambda k: Implies(rng(k, 0, o.length), n.number[k] == o.number[k]), pats=lambda k: [n.number[k]]),
                    forall(lambda k: Implies(rng(k, 0, o.length), n.iSort[k] == o.iSort[k]), pats=lambda k: [n.iSort[k]])))),
               ("removed", forall(lambda i: Implies(And(rng(i, 0, o.length), o.number[i] == x),
                    And(n.length == o.length - 1,
                        forall(lambda k: Implies(rng(k, 0, i), n.number[k] == o.number[k]), pats=lambda k: [n.number[k]]),
                        forall(lambda k: Implies(rng(k, i, o.length - 1), n.number[k] == o.number[k + 1]), pats=lambda k: [n.number[k]]))),
                    pats=lambda i: [o.number[i]])),
               ("gone", notmember(n, x))]
        if isprover(c):
            idx = fi(o, x)
            out += [("lemma:order-kept", Implies(Not(nm), forall(lambda j: Implies(rng(j, 0, n.length), And(
                Implies(j < idx, n.number[n.iSort[j]] == o.number[o.iSort[j]]),
                Implies(j >= idx, n.number[n.iSort[j]] == o.number[o.iSort[j + 1]]))), pats=lambda j: [n.iSort[j]])))]
        out += [("wf:" + a, b) for a, b in sorted_(n)]
        if isprover(c):
            out += [("wf:" + a, b) for a, b in surj_by(n, lambda p: [inv(o, p), inv(o, p) - 1, inv(o, p + 1), inv(o, p + 1) - 1])]
        else:
            out += [("wf:" + a, b) for a, b in surj(n)]
        return out

    R.add("Indexlist::removeNumber", requires=lambda c: wf(c.old.this), ensures=remove_post,
          modifies=lambda c: [mfield(c.old.this, "length")] + marr(c.old.this.number) + marr(c.old.this.iSort))

    def swap_post(c):
        o, n, a, b = c.old.this, c.new.this, c.old.argi(0), c.old.argi(1)
        bad = Or(notmember(o, a), notmember(o, b))
        out = [("code", c.ret == If(bad, z3.IntVal(c.E["RET_INDEXLIST_CORRUPTED"]), z3.IntVal(0))),
               ("length", And(n.length == o.length, n.physicallength == o.physicallength)),
               ("error-unchanged", Implies(bad, And(
                   forall(lambda k: Implies(rng(k, 0, o.length), n.number[k] == o.number[k]), pats=lambda k: [n.number[k]]),
                   forall(lambda k: Implies(rng(k, 0, o.length), n.iSort[k] == o.iSort[k]), pats=lambda k: [n.iSort[k]])))),
               ("swapped", Implies(Not(bad), forall(lambda k: Implies(rng(k, 0, o.length),
                    n.number[k] == If(o.number[k] == a, b, If(o.number[k] == b, a, o.number[k]))), pats=lambda k: [n.number[k]])))]
        out += [("wf:" + x, y) for x, y in sorted_(n)]
        if isprover(c):
            out += [("wf:" + x, y) for x, y in surj_by(n, lambda p: [inv(o, p), FI(o.number.arr, o.iSort.arr, o.length, a),
                                                                    FI(o.number.arr, o.iSort.arr, o.length, b)])]
        else:
            out += [("wf:" + x, y) for x, y in surj(n)]
        return out

    R.add("Indexlist::swapNumbers", requires=lambda c: wf(c.old.this), ensures=swap_post,
          modifies=lambda c: marr(c.old.this.number) + marr(c.old.this.iSort))

    def freshwf(c, L):
        # an empty list is well formed: sorted and onto hold vacuously
        return alloc(L) + [("empty", L.length == 0)]

    def mod_all(c):
        return [mprefix(c.old.this)]

    def own(L):
        """the two arrays are either absent or valid, separate allocations"""
        return [("own", And(L.number.null == L.iSort.null))]

    R.add("Indexlist::init", requires=lambda c: own(c.old.this), only_variant=True,
          ensures=lambda c: [("code", c.ret == If(c.old.argi(0) < 0, z3.IntVal(c.E["RET_INVALID_ARGUMENTS"]), z3.IntVal(0)))]
          + [(a, Implies(c.old.argi(0) >= 0, b)) for a, b in alloc(c.new.this) + [
              ("empty", c.new.this.length == 0), ("capacity", c.new.this.physicallength == c.old.argi(0))]]
          + [("error-unchanged", Implies(c.old.argi(0) < 0, And(c.new.this.length == c.old.this.length,
              c.new.this.physicallength == c.old.this.physicallength, c.new.this.number.eq(c.old.this.number), c.new.this.iSort.eq(c.old.this.iSort))))],
          modifies=mod_all)
    R.add("Indexlist::Indexlist", sig="void ()", variant="default", only_variant=True,
          ensures=lambda c: freshwf(c, c.new.this) + [("cap", c.new.this.physicallength == 0)], modifies=mod_all)
    R.add("Indexlist::Indexlist", sig="void (int_t)", variant="n", only_variant=True,
          requires=lambda c: [("n", c.old.argi(0) >= 0)],
          ensures=lambda c: freshwf(c, c.new.this) + [("cap", c.new.this.physicallength == c.old.argi(0))], modifies=mod_all)

    def copy_post(c):
        n, r = c.new.this, c.old.argi(0)
        out = alloc(n) + [("length", And(n.length == r.length, n.physicallength == r.physicallength))]
        if not n.number.none:
            out += [("deep", And(Implies(Not(n.number.null), Not(n.number.eq(r.number))), Implies(Not(n.iSort.null), Not(n.iSort.eq(r.iSort))))),
                    ("number-copied", Implies(r.physicallength > 0, forall(lambda k: Implies(rng(k, 0, r.physicallength), n.number[k] == r.number[k])))),
                    ("iSort-copied", Implies(r.physicallength > 0, forall(lambda k: Implies(rng(k, 0, r.physicallength), n.iSort[k] == r.iSort[k]))))]
        r2 = c.new.argi(0)
        out += [("source-kept", And(r2.length == r.length, r2.physicallength == r.physicallength, r2.number.eq(r.number), r2.iSort.eq(r.iSort)))]
        return out

    R.add("Indexlist::Indexlist", sig="void (const Indexlist &)", variant="copy", only_variant=True,
          requires=lambda c: wf(c.old.argi(0)), ensures=copy_post, modifies=mod_all)
    def assign_post(c):
        n, r = c.new.this, c.old.argi(0)
        out = copy_post(c)
        if not n.number.none:
            out = [x for x in out if x[0] not in ("number-copied", "iSort-copied")]
            for f in ("number", "iSort"):
                N, S = getattr(n, f), getattr(r, f)
                out.append((f + "-copied", Implies(r.physicallength > 0, forall(lambda k: Implies(rng(k, 0, r.physicallength), N[k] == S[k]), pats=lambda k: [N[k], S[k]]))))
        out += [("fresh", And(c.fresh(n.number), c.fresh(n.iSort)))]
        if not n.number.none:
            out += [("wf:" + a, b) for a, b in sorted_(n)]
            out += [("wf:" + a, b) for a, b in (surj_by(n, lambda p: [inv(r, p)]) if isprover(c) else surj(n))]
        return out
    R.add("Indexlist::operator=", requires=lambda c: wf(c.old.argi(0)) + own(c.old.this), ensures=assign_post, result=lambda c: c.new.this,
          modifies=lambda c: [mnew(c.old.this, "number"), mnew(c.old.this, "iSort"), mfield(c.old.this, "length"), mfield(c.old.this, "physicallength")])
    R.add("Indexlist::getNumberArray", only_variant=True,
          ensures=lambda c: [("code", c.ret == If(c.old.argi(0).null, z3.IntVal(c.E["RET_INVALID_ARGUMENTS"]), z3.IntVal(0)))],
          modifies=lambda c: marr(c.old.argi(0)))
    R.add("Indexlist::getLastNumber", requires=lambda c: alloc(c.old.this) + [("nonempty", c.old.this.length > 0)], pure=True,
          ensures=lambda c: [("last", c.ret == c.old.this.number[c.old.this.length - 1])])
    R.add("Indexlist::getLength", pure=True, only_variant=True, ensures=lambda c: [("value", c.ret == c.old.this.length)])
    return R
