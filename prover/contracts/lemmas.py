"""Lemmas over the contracts of the reconciler: what the units of the single functions assume about all fibers follows from what they prove about each step."""
from base import *
import engine as E
UNITS = []
B = z3.BoolSort()
FILE = "collagraph/collagraph.py"
STEP = "the postconditions of reconcile_children that the unit of that name proves (the_fiber_is_new_or_the_alternate_of_its_partner, every_old_child_has_its_turn, it_knows_what_was_displayed, without_the_instance_of_another_one, below_the_parent, nothing_else_is_changed)"


def db(S, D, alt, name):
    """Double buffering of a displayed tree: alternates are not displayed, and no two displayed fibers share one."""
    x, y = z3.Consts("x y", V)
    return z3.And(z3.Not(D(NONE)),
                  z3.ForAll([x], z3.Implies(z3.And(D(x), alt(x) != NONE), z3.Not(D(alt(x))))),
                  z3.ForAll([x, y], z3.Implies(z3.And(D(x), D(y), alt(x) == alt(y), alt(x) != NONE), x == y)))


@unit(UNITS, "double buffering (lemma)", ["C01", "C02"], [FILE + ":Collagraph.reconcile_children (contract)", FILE + ":Collagraph.prepare_next_iteration_of_work (contract)"], covers=["begin", "step", "commit"],
      assumes=[STEP, "perform_unit_of_work visits each prepared fiber once (unit 'perform_unit_of_work')"])
def double_buffering(S):
    """what reconcile_children relies on holds before each of its calls: the alternates of displayed fibers are distinct, not displayed and not used yet; it holds when a preparation begins, every call
    (for any number of children) keeps it, and when the prepared tree becomes the displayed one it is double buffered again"""
    D, alt0, par = uf("displayed", V, B), uf("alt_before", V, V), uf("parent_displayed", V, V)
    P, A, done, wpar, orig = uf("prepared", V, B), uf("alt_now", V, V), uf("done", V, B), uf("parent_prepared", V, V), uf("origin", V, V)
    fresh = uf("made_in_this_preparation", V, B)
    x, y = z3.Consts("x y", V)
    S.assume(db(S, D, alt0, "before"))
    # fibers made during this preparation are none of those that existed
    S.assume(z3.ForAll([x], z3.Implies(fresh(x), z3.And(z3.Not(D(x)), x != NONE))))
    S.assume(z3.ForAll([x], z3.Implies(D(x), z3.Not(fresh(alt0(x))))))

    def inv(P, A, done, wpar, orig):
        a = z3.ForAll([x], z3.Implies(P(x), z3.And(z3.Not(D(x)), x != NONE, z3.Or(A(x) == NONE, D(A(x))))))
        b = z3.ForAll([x, y], z3.Implies(z3.And(P(x), P(y), A(x) == A(y), A(x) != NONE), x == y))
        root = z3.ForAll([x], z3.Implies(z3.And(P(x), wpar(x) == NONE), z3.Or(fresh(x), z3.And(D(orig(x)), par(orig(x)) == NONE, alt0(orig(x)) == x))))
        c = z3.ForAll([x], z3.Implies(z3.And(P(x), z3.Not(fresh(x))), z3.And(D(orig(x)), x == alt0(orig(x)), z3.Implies(wpar(x) != NONE, z3.And(P(wpar(x)), done(wpar(x)), A(wpar(x)) == par(orig(x)), A(wpar(x)) != NONE)))))
        return {"prepared_fibers_are_not_displayed": a, "no_two_know_the_same_displayed_fiber": b, "the_root": root, "each_is_new_or_an_alternate": c}
    case = S.choose(3)
    if case == 0:
        S.cover("begin")
        r, w = S.obj("root", "any").zt__, S.obj("wip", "any").zt__
        S.assume(z3.And(D(r), r != NONE, par(r) == NONE))
        # prepare_next_iteration_of_work: the alternate of the root or a new fiber; its alternate is the root
        S.assume(z3.Or(z3.And(alt0(r) != NONE, w == alt0(r)), fresh(w)))
        P1, A1 = (lambda v: v == w), (lambda v: z3.If(v == w, r, alt0(v)))
        for n, f in inv(P1, A1, lambda v: z3.BoolVal(False), lambda v: NONE, lambda v: r).items():
            S.oblige("begins_with_" + n, f)
        return
    for f in inv(P, A, done, wpar, orig).values():
        S.assume(f)
    if case == 1:
        S.cover("step")
        w = S.obj("w", "any").zt__
        S.assume(z3.And(P(w), z3.Not(done(w))))
        NEW, O, UPD = uf("new_below_w", V, B), uf("old_of", V, V), uf("is_updated", V, B)
        mid = uf("made_here", V, B)       # the fibers this call makes
        # contract of reconcile_children
        S.assume(z3.ForAll([x], z3.Implies(NEW(x), z3.Or(z3.And(mid(x), z3.Implies(UPD(x), z3.And(D(O(x)), par(O(x)) == A(w), A(w) != NONE))),
                                                         z3.And(D(O(x)), par(O(x)) == A(w), A(w) != NONE, alt0(O(x)) == x, x != NONE, z3.Not(mid(x)))))))
        S.assume(z3.ForAll([x, y], z3.Implies(z3.And(NEW(x), NEW(y), O(x) == O(y), z3.Or(z3.Not(mid(x)), UPD(x)), z3.Or(z3.Not(mid(y)), UPD(y))), x == y)))
        S.assume(z3.ForAll([x], z3.Implies(mid(x), z3.And(fresh(x), z3.Not(P(x))))))
        # displayed children of different parents are different
        a = z3.Const("a", V)
        S.oblige("a_prepared_fiber_is_not_used_again", z3.Not(z3.And(NEW(a), P(a))))
        P1 = lambda v: z3.Or(P(v), NEW(v))
        A1 = lambda v: z3.If(NEW(v), z3.If(UPD(v), O(v), NONE), A(v))
        # no displayed fiber is known to two prepared ones: children of w's displayed fiber are not known before
        S.assume(z3.ForAll([x], z3.Implies(z3.And(P(x), A(x) != NONE, wpar(x) != NONE), z3.And(done(wpar(x)), P(wpar(x)), A(wpar(x)) == par(A(x)), par(A(x)) != NONE))))
        S.assume(z3.ForAll([x], z3.Implies(z3.And(P(x), A(x) != NONE, wpar(x) == NONE), par(A(x)) == NONE)))
        done1, wpar1 = (lambda v: z3.Or(done(v), v == w)), (lambda v: z3.If(NEW(v), w, wpar(v)))
        orig1 = lambda v: z3.If(NEW(v), O(v), orig(v))
        S.assume(z3.ForAll([x], z3.Implies(NEW(x), z3.Not(P(x)))))        # proved above
        for n, f in inv(P1, A1, done1, wpar1, orig1).items():
            S.oblige("keeps_" + n, f)
        S.oblige("keeps_parents", z3.ForAll([x], z3.Implies(z3.And(P1(x), A1(x) != NONE, wpar1(x) != NONE), z3.And(done1(wpar1(x)), P1(wpar1(x)), A1(wpar1(x)) == par(A1(x)), par(A1(x)) != NONE))))
        S.oblige("keeps_parents", z3.ForAll([x], z3.Implies(z3.And(P1(x), A1(x) != NONE, wpar1(x) == NONE), par(A1(x)) == NONE)))
        return
    S.cover("commit")
    for n, f in (("the_displayed_tree_is_double_buffered", db(S, P, A, "after")),):
        S.oblige(n, f)
