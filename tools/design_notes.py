HEAD = """
# Model checking fairseq2

This file is written by `tools/design.py` from the property table
(`tools/props.py`), `tools/design_notes.py`, `known_findings.json` and
`tools/seed_results.json`; edit those.

## Approach

All checks execute the real Python code of fairseq2; none works on a separate
model of it, so there is no model to keep in step with the code. What is
controlled and enumerated is the environment: scheduling, the file system,
other processes, crashes and faults, inputs, configurations, and the choices of
components that fairseq2 treats as black boxes (model predictions, sampling).
The stand-ins for the environment are the only modelled parts, and each is bound
to the thing it replaces by a conformance run:

| stand-in | module | replaces | binding |
|---|---|---|---|
| in-memory file system with crash and error injection | `mc/memfs.py` | `LocalFileSystem` | F01 runs the same operation sequences on both (and on `FSspecFileSystem`) |
| cooperative scheduler | `mc/sched.py` | threads, futures, thread pool | every run is a legal execution of real threads: scheduling points are the only places where control changes |
| simulated gangs | `mc/simgang.py` | process groups | G01 and M01 replay the same programs on real gloo process groups |
| DDP wrapper with averaging in the backward pass | `checks/t04.py` | `DistributedDataParallel` | W01 checks that real DDP over gloo has exactly these semantics |
| Python data pipeline | `checks/train_common.py` | the C++ pipeline (not built here) | same documented interface; its own state round trip is asserted |
| table-driven model | `checks/g02.py` | a language model | G02 also runs seven real decoders and NLLB |

`mc/explore.py` is the explorer: a check body asks `ctl.choose(n)` at every
nondeterministic point, and the explorer re-executes the body depth-first until
every sequence of answers has been taken (stateless search). The explicit-state
checks (C01, T02) keep a set of durable states instead and run the real code
from every one of them until no new state appears. The enumeration is always
complete within the stated bounds; nothing is sampled, and `VERIF_SEED` has no
influence on what is explored. Evidence reports executions (`states`), choice
points or operations (`transitions`) and how many of the runs were on the
implementation (`traces_validated_against_impl`: all of them).

A check prints `VIOLATION` for a property that fails and for an exception that
the code under test raises where the property says it succeeds; an exception
of the harness itself ends the check with status 2 and is no verdict. Keys of
violations name the aspect that fails, so known findings stay specific.

Running: `./check.sh ID [quick|thorough]`; checks import fairseq2 from
/repo/src (pure Python, so nothing is built), write only `evidence/` and `out/`,
and use temporary directories they remove for the few parts with real processes
or real files.
"""

NOTES = {
    "S01": """*By design:* files and command line items are merged into the default, so a dumped configuration with another
scheduler or optimizer than the default one has to be read under `_set_` (the loader refuses it otherwise). The tags of
`none`/`t`/`f` as text equal those of the values.""",
    "W01": """*By design:* gradients are not clipped, stepped or saved while some are not synchronised. Under static mixed
precision inputs have the type of the parameters.""",
    "A01": """*By design:* what a download of a hostile archive returns is not specified, only that nothing is written outside
of the cache.""",
    "F01": """*By design:* operations whose outcome differs between object stores (conflicting or overlapping paths) are
compared on local file systems only.""",
    "T02": """*By design:* metric values between the last checkpoint and the next publication are lost by an
interruption, so the windows of published metrics may differ from the uninterrupted run; the check compares what
is trained and saved, not these windows.""",
    "L01": """*By design:* where stage or cycle lengths are not whole steps, any value within one step of the definition
is accepted; cycle growth is at least 1 and final scales are positive.""",
    "P01": """*By design:* OLMo's normalised projections and LLaMA 4's sharding specifications fail loudly under tensor
parallelism and are accepted as refusals. `RowShardedLinear` with `reduce_output=False` and a bias is unspecified.""",
    "K01": """*By design:* a checkpoint whose shards contradict each other may fail with any error.""",
    "K02": """*Limits:* only configurations that Transformers can represent are compared (Qwen with bias or with q/k
norm, OLMo YaRN with a sliding window); fairseq checkpoints are synthesised from the Transformers twins of the same
architecture (M2M100, wav2vec 2.0) by renaming. Importing may modify the dictionary passed in.""",
    "N01": """*By design:* speech sources are padded to one width, because the subsampling convolutions see padding.
`IncrementalStateBag.increment_step_nr()` refuses to reach the maximum itself; left as is.""",
    "B01": """*By design:* Gemma3n with packed batches raises. Shaw cross-attention with padded keys is unspecified.
FlashAttention 3 could be repaired but not run.""",
    "G02": """*By design:* length limits count from the longest prompt (or, for the maximum of sequence-to-sequence models,
from the longest source) of the batch, so they do depend on the batch; everything else does not.""",
}

TAIL = """
## Limits

- No GPU, no NCCL, no native data pipeline, no network: parts of fairseq2 that need them are covered through
  their Python side with stand-ins, or not at all (Flash kernels, NCCL transport, C++ operators).
- Floating point comparisons use tolerances a few orders of magnitude above rounding and below any realistic defect.
- Where an input makes two outcomes equally right (ties), the check accepts every right one or skips it and counts it.
"""
