"""Imports fairseq2 from /repo without its native extension."""

import os
import sys
import warnings

os.environ.setdefault("FAIRSEQ2_LOG_LEVEL", "ERROR")
warnings.filterwarnings("ignore")

import fairseq2n  # noqa: E402

fairseq2n.DOC_MODE = True

import logging  # noqa: E402

logging.getLogger("fairseq2").setLevel(logging.CRITICAL)
logging.getLogger().setLevel(logging.ERROR)

import torch  # noqa: E402

torch.set_num_threads(1)

# Metric synchronisation over a simulated process group (mc.simgang.SimPG); any
# other group goes to torcheval.  Installed before fairseq2 is imported.
import torcheval.metrics.toolkit as _tk  # noqa: E402

_real_sync = _tk.sync_and_compute_collection


def _sync_and_compute_collection(metrics, process_group=None, *args, **kwargs):
    from mc.simgang import SimPG

    if isinstance(process_group, SimPG):
        return process_group.sync_and_compute(metrics)
    return _real_sync(metrics, process_group, *args, **kwargs)


_tk.sync_and_compute_collection = _sync_and_compute_collection

_done = False


def init():
    """Fully initializes fairseq2 (default dependency container)."""
    global _done
    if _done:
        return
    import fairseq2

    fairseq2.init_fairseq2()
    import fairseq2.recipe  # noqa: F401  (must precede evaluator/trainer imports)

    logging.getLogger("fairseq2").setLevel(logging.CRITICAL)
    _done = True
