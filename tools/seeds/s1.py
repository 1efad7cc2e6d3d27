import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from trainlib import LIB

SEEDS = [
 dict(id="b01-tmp-listed", property="C01",
  needs="a process that dies while it saves a checkpoint, then a restart",
  breaks="the partially written step_N.tmp directory is listed as checkpoint N and the restarted run tries to load it",
  edits=[("checkpoint/manager.py", "step_nr = int(step_dir.name[5:])", "step_nr = int(step_dir.stem[5:])")],
  demo=LIB + r'''
with scratch() as root:
    m = make_mgr(root)
    sd = {"w": torch.ones(2)}
    m.save_checkpoint(1, Box({"a": 1}), Box(sd), Box({"a": 1}), Box({"a": 1}), blocking=True)
    class Die(Exception): pass
    class Bad:
        def state_dict(self):
            raise Die()
    try:
        m.save_checkpoint(2, Box({"a": 1}), Box(sd), Box({"a": 1}), Bad(), blocking=True)
    except Die:
        pass
    m = make_mgr(root)
    assert m.get_step_numbers() == [1], m.get_step_numbers()
'''),
 dict(id="b02-alias", property="C02",
  needs="an asynchronous save whose writer runs after training modified the parameters in place",
  breaks="the checkpoint holds later parameter values than those at the time of the save call",
  edits=[("checkpoint/manager.py", """            target = torch.empty_like(source, device=CPU)

            target.copy_(source, non_blocking=is_cuda)
""", """            if is_cuda:
                target = torch.empty_like(source, device=CPU)

                target.copy_(source, non_blocking=True)
            else:
                # Already on host.
                target = source.detach()
""")],
  demo=LIB + r'''
import threading
from concurrent.futures import ThreadPoolExecutor
class Pool:
    def __init__(self):
        self.go = threading.Event(); self.ex = ThreadPoolExecutor(1)
    def queue(self, f, *a, **k):
        def g():
            self.go.wait()
            return f(*a, **k)
        return self.ex.submit(g)
with scratch() as root:
    pool = Pool()
    m = make_mgr(root, pool=pool)
    w = torch.ones(2)
    m.save_checkpoint(1, Box({"a": 1}), Box({"w": w}), Box({"a": 1}), Box({"a": 1}))
    w.add_(1)
    pool.go.set()
    m.maybe_complete_save_operation(blocking=True)
    b = Box()
    m.load_model_state(1, b)
    assert b.sd["w"].tolist() == [1, 1], b.sd
    pool.ex.shutdown()
'''),
 dict(id="b03-no-barrier", property="C02",
  needs="two processes that save a checkpoint in blocking mode and finish writing at different times",
  breaks="the first process renames the checkpoint before the others have written their parts, so an incomplete checkpoint is visible",
  edits=[("checkpoint/manager.py", """        gangs = self._gangs

        try:
            gangs.root.barrier()
        except GangError as ex:
            raise_operational_gang_error(ex)

        if gangs.root.rank == 0:
            if self._is_local_checkpoint_dir():
                tmp_step_dir""", """        gangs = self._gangs

        if gangs.root.rank == 0:
            if self._is_local_checkpoint_dir():
                tmp_step_dir""")],
  demo=LIB + r'''
import threading, time
from fairseq2.gang import FakeGang, Gangs
from fairseq2.device import CPU
bar = threading.Barrier(2)
class Gang2(FakeGang):
    def barrier(self):
        bar.wait(60)
from fairseq2 import io as fio
ready = threading.Event()
def rank(r, root, out):
    g = Gang2(CPU, rank=r, size=2)
    one = FakeGang(CPU)
    gangs = Gangs(root=g, dp=g, rdp=g, sdp=one, tp=one, pp=one)
    m = make_mgr(root, gangs)
    d = m._tensor_file_dumper
    class Slow:
        def dump(self, *a, **k):
            if r == 1:
                ready.wait(3)  # slower than rank 0
                out.append([p.name for p in (root / "checkpoints").glob("step_1")])
            d.dump(*a, **k)
    m._tensor_file_dumper = Slow()
    try:
        m.save_checkpoint(1, Box({"a": r}), Box({"w": torch.ones(2)}), Box({"a": r}), Box({"a": r}), blocking=True)
    except Exception as ex:
        out.append([repr(ex)])
        bar.abort()
with scratch() as root:
    out = []
    ts = [threading.Thread(target=rank, args=(r, root, out)) for r in (0, 1)]
    [t.start() for t in ts]; [t.join() for t in ts]
    assert all(o == [] for o in out), out
'''),
 dict(id="b04-sort", property="C04",
  needs="a run that passes from 9 to 10 (or 99 to 100) so that names no longer sort numerically",
  breaks="the lexicographically last checkpoint is taken as the most recent one, and the real last one is deleted as stale",
  edits=[("checkpoint/manager.py", """        except OSError as ex:
            raise_operational_system_error(ex)

        step_nrs.sort()
""", """        except OSError as ex:
            raise_operational_system_error(ex)

        step_nrs.sort(key=str)
""")],
  demo=LIB + r'''
with scratch() as root:
    m = make_mgr(root)
    for s in (8, 9, 10):
        m.save_checkpoint(s, Box({"a": 1}), Box({"w": torch.ones(2)}), Box({"a": 1}), Box({"a": 1}), blocking=True)
    assert m.get_stale_step_numbers(1, None, None) == [8, 9], m.get_stale_step_numbers(1, None, None)
'''),
 dict(id="b05-after-n", property="T01",
  needs="after_n_steps that is a multiple of every_n_steps",
  breaks="a checkpoint is saved at the step up to which none was asked for",
  edits=[("trainer.py", "                if self._step_nr > after_n_steps:", "                if self._step_nr >= after_n_steps:")],
  demo=LIB + r'''
with scratch() as root:
    r = Run(root, lambda e: [Batch((e, i), 2) for i in range(8)], max_num_steps=7,
            checkpoint_after_n_steps=4, checkpoint_every_n_steps=2)
    r.run()
    assert r.mgr.get_step_numbers() == [6, 7], r.mgr.get_step_numbers()
'''),
 dict(id="b06-totals-reset", property="T02",
  needs="a run with total_ metrics that is restarted from a checkpoint",
  breaks="lifetime totals (e.g. total number of examples) restart from zero after a resume",
  edits=[("trainer.py", """        log.info("Data reader state restored.")

        self._reset_non_total_metrics()
""", """        log.info("Data reader state restored.")

        for metric in self._metric_bag.metrics.values():
            metric.reset()
""")],
  demo=LIB.replace('bag.add("n", Sum())', 'bag.add("total_n", Sum())').replace('bag.get("n", Sum)', 'bag.get("total_n", Sum)').replace('"n", "grad_norm"', '"total_n", "grad_norm"') + r'''
kw = dict(max_num_steps=6, checkpoint_every_n_steps=2, publish_metrics_every_n_steps=2)
data = lambda e: [Batch((e, i), 1 + i % 3) for i in range(8)]
with scratch() as a, scratch() as b:
    r1 = Run(a, data, **kw); r1.run()
    r2 = Run(b, data, **kw)
    class Die(Exception): pass
    def on(kind, n):
        if n == 4:
            r2.mgr.maybe_complete_save_operation(blocking=True)
            raise Die()
    r2.on = on
    try:
        r2.run()
    except Die:
        pass
    r3 = Run(b, data, **kw); r3.run()
    want = [(s, v["total_n"]) for c, s, v in r1.published if s > 2]
    got = [(s, v["total_n"]) for c, s, v in r3.published]
    assert want == got, (want, got)
'''),
 dict(id="b07-num-targets", property="T04",
  needs="gradient accumulation with micro-batches that have different numbers of targets",
  breaks="the gradient is divided by the targets of the last micro-batch only",
  edits=[("trainer.py", "                            num_targets += num_batch_targets\n", "                            num_targets = max(num_targets, num_batch_targets)\n")],
  demo=LIB + r'''
bs = [Batch((0, i), n) for i, n in enumerate((1, 3))]
grads = []
def wrap(m):
    return m
with scratch() as a:
    r = Run(a, lambda e: bs, acc=2, max_num_steps=1)
    step = r.opt.step
    def cap(*x, **k):
        grads.append(r.model.w.grad.clone()); return step(*x, **k)
    r.opt.step = cap
    r.run()
m = Net()
x = torch.cat([b.x for b in bs]); y = torch.cat([b.y for b in bs])
(((m(x) - y) ** 2).sum() / 4).backward()
assert torch.allclose(grads[0], m.w.grad), (grads, m.w.grad)
'''),
 dict(id="b08-overflow-lr", property="T05",
  needs="a gradient overflow",
  breaks="the learning rate schedule advances on steps that were skipped because of an overflow",
  edits=[("trainer.py", """        if fp16_scale_result.overflowed:
            self._metric_bag.rollback_updates()

            return _TrainerState.GRAD_OVERFLOW

        self._last_lrs = self._lr_scheduler.get_last_lr()  # type: ignore[assignment]

        self._lr_scheduler.step()
""", """        self._last_lrs = self._lr_scheduler.get_last_lr()  # type: ignore[assignment]

        self._lr_scheduler.step()

        if fp16_scale_result.overflowed:
            self._metric_bag.rollback_updates()

            return _TrainerState.GRAD_OVERFLOW
""")],
  demo=LIB + r'''
def data(e):
    out = [Batch((e, i), 2) for i in range(8)]
    out[1].inf = True
    return out
with scratch() as a:
    r = Run(a, data, fp16=True, max_num_steps=3)
    r.run()
    assert r.lr.last_epoch == 3, r.lr.last_epoch
'''),
]
