SEEDS = [
 dict(id="b15-cosine-scale", property="L01",
  needs="cosine annealing configured with final_lr_scale and several parameter groups with different learning rates",
  breaks="the final learning rate of every group is derived from the first group",
  edits=[("recipe/internal/lr_schedulers.py", "final_lrs = [lr * scale for lr, scale in zip(lrs, final_lr_scales)]", "final_lrs = [lrs[0] * scale for scale in final_lr_scales]")],
  demo=r'''
from torch.nn import Parameter
from fairseq2.recipe.config import CosineAnnealingLRConfig, RegimeSection
from fairseq2.recipe.internal.lr_schedulers import _CosineAnnealingLRFactory
o = torch.optim.SGD([dict(params=[Parameter(torch.zeros(1))], lr=1.0), dict(params=[Parameter(torch.zeros(1))], lr=0.1)], lr=1.0)
s = _CosineAnnealingLRFactory(o, RegimeSection(num_steps=10)).create(CosineAnnealingLRConfig(cycle_len=10, final_lr_scale=0.5))
for t in range(5):
    o.step(); s.step()
assert abs(s.get_last_lr()[1] - 0.075) < 1e-6, s.get_last_lr()
'''),
 dict(id="b16-myle-resume", property="L01",
  needs="a run resumed from a checkpoint with more than one parameter group and distinct warmup start rates",
  breaks="learning rates during warmup after a restart start from zero instead of the configured value",
  edits=[("optim/lr_schedulers/lr_scheduler.py", """    @abstractmethod
    def _compute_lrs(self)""", """    @override
    def load_state_dict(self, state_dict: dict[str, object]) -> None:
        super().load_state_dict(state_dict)

        # Continue from where we left off.
        if self.last_epoch > 0:
            self.base_lrs = [g["lr"] for g in self.optimizer.param_groups]

    @abstractmethod
    def _compute_lrs(self)""")],
  demo=r'''
from torch.nn import Parameter
from fairseq2.optim.lr_schedulers import MyleLR
def mk():
    o = torch.optim.SGD([Parameter(torch.zeros(1))], lr=1.0)
    return o, MyleLR(o, 4)
o, s = mk()
o.step(); s.step()
o2, s2 = mk()
o2.load_state_dict(o.state_dict()); s2.load_state_dict(s.state_dict())
o.step(); s.step(); o2.step(); s2.step()
assert s.get_last_lr() == s2.get_last_lr(), s2.get_last_lr()
'''),
]
