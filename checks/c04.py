"""C04: retention. Every subset of steps x score assignment x retention policy."""

from __future__ import annotations

import itertools

from checks.ckpt_common import Box, content, fake_gangs, make_manager
from mc.memfs import State, make_memfs
from mc.par import run_jobs
from mc.report import Report, Violation

LEVEL = "model_checking"

STEPS = (2, 3, 10, 12)
SCORES = (None, 0.5, -1.25, 7.0)


def check_dir(rep: Report, steps, kinds, scores, policies) -> None:
    st = State()
    fs = make_memfs(st)
    m = make_manager(fs, fake_gangs())
    # saved in descending order: the answer must not depend on creation order
    for n, kind in reversed(list(zip(steps, kinds))):
        c = content(n, 0)
        if kind == "full":
            m.save_checkpoint(
                n, *[Box(c[k]) for k in ("trainer", "model", "optimizer", "data_reader")], blocking=True
            )
        else:
            m.save_model_only(n, Box(c["model"]), blocking=True)
    for n, s in zip(steps, scores):
        if s is not None:
            m.save_score(n, s)
    # leftovers that are not checkpoints must be ignored
    from pathlib import Path

    fs.make_directory(Path("/mcfs/run/checkpoints/step_99.tmp/model"))
    rep.count("states")
    have = {n: s for n, s in zip(steps, scores) if s is not None}
    where = {"steps": list(zip(steps, kinds)), "scores": scores}
    for last, best, every in policies:
        stale = m.get_stale_step_numbers(last, best, every)
        rep.count("transitions")
        rep.case((steps, kinds, scores, last, best, every))
        det = {**where, "keep_last_n": last, "keep_best_n": best, "keep_every": every, "stale": stale}
        if sorted(set(stale)) != sorted(stale) or not set(stale) <= set(steps):
            raise Violation("bogus", f"stale list {stale} is not a set of existing steps", det)
        if last is None and best is None and every is None:
            if stale:
                raise Violation("no-policy", "checkpoints are stale without a policy", det)
            continue
        kept = [n for n in steps if n not in stale]
        if steps and steps[-1] in stale:
            raise Violation("last", "the last checkpoint is selected for deletion", det)
        must = set(steps[-1:])
        if last is not None:
            must |= set(steps[-last:])
        if every is not None:
            must |= {n for n in steps if n % every == 0}
        if not must <= set(kept):
            raise Violation("must-keep", f"{must - set(kept)} must be kept", det)
        extra = [n for n in kept if n not in must]
        if best is None:
            if extra:
                raise Violation("over-keep", f"{extra} should be deleted", det)
            continue
        # the kept set must contain some valid choice of the `best` highest scores
        # and nothing that no such choice contains
        ranked = sorted(have.values(), reverse=True)
        k = min(best, len(ranked))
        if k == 0:
            if extra:
                raise Violation("over-keep", f"{extra} should be deleted", det)
            continue
        thr = ranked[k - 1]
        above = {n for n, s in have.items() if s > thr}
        at = {n for n, s in have.items() if s == thr}
        if not above <= set(kept):
            raise Violation("best", f"best checkpoints {above - set(kept)} would be deleted", det)
        if len(above) + len(at & set(kept)) < k:
            raise Violation("best", f"fewer than {best} best checkpoints are kept", det)
        for n in extra:
            if n not in above | at:
                raise Violation("over-keep", f"step {n} should be deleted", det)
        if len([n for n in extra if n in at]) > k - len(above):
            raise Violation("over-keep", "more tied checkpoints kept than requested", det)
        # applying the policy is idempotent and touches nothing else
    # delete with one policy and look again
    for last, best, every in ((1, None, None), (None, 1, None), (2, 1, 5)):
        st2 = st.copy()
        m2 = make_manager(make_memfs(st2), fake_gangs())
        stale = m2.get_stale_step_numbers(last, best, every)
        before = m2.load_scores()
        for n in stale:
            m2.delete_checkpoint(n)
        if m2.get_step_numbers() != [n for n in steps if n not in stale]:
            raise Violation("delete", "deleting stale checkpoints removed something else", where)
        if m2.load_scores() != [x for x in before if x[1] not in stale]:
            raise Violation("delete-score", "scores of kept checkpoints changed", where)
        if m2.get_stale_step_numbers(last, best, every):
            raise Violation("idempotent", "kept checkpoints become stale by deleting others", where)
        rep.count("transitions")


def check(rep: Report) -> None:
    steps = STEPS if not rep.thorough else (2, 3, 6, 10, 12)
    scores_dom = SCORES if not rep.thorough else (None, 0.5, -1.25, 7.0)
    policies = list(itertools.product((None, 1, 2, 3), (None, 1, 2, 3), (None, 1, 2, 5)))
    dirs = []
    for r in range(len(steps) + 1):
        for sub in itertools.combinations(steps, r):
            for sc in itertools.product(scores_dom, repeat=r):
                kinds = tuple("full" if (i + r) % 2 else "model" for i in range(r))
                dirs.append((sub, kinds, sc))
    n = 8

    def job(i):
        def f(r: Report) -> None:
            for sub, kinds, sc in dirs[i::n]:
                check_dir(r, sub, kinds, sc, policies)
            r.sample({"steps": sub, "kinds": kinds, "scores": sc, "policies": len(policies)})

        return f

    run_jobs(rep, [job(i) for i in range(n)])
    # argument validation: a retention of zero must be refused, not delete everything
    st = State()
    m = make_manager(make_memfs(st), fake_gangs())
    m.save_model_only(1, Box(content(1, 0)["model"]), blocking=True)
    m.save_model_only(2, Box(content(2, 0)["model"]), blocking=True)
    for args in ((0, None, None), (None, 0, None), (None, None, 0), (-1, None, None)):
        try:
            m.get_stale_step_numbers(*args)
        except ValueError:
            pass
        else:
            raise Violation("zero-retention", f"{args} is accepted")
