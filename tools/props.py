NOT_APPLICABLE = []

PROPS = [
    dict(
        id="C01",
        title="Checkpoints survive a crash at any point of any save/score/delete history",
        statement="""On a local file system, after the process is killed (or an I/O error is raised) at any
        file-system effect of any sequence of checkpoint saves, score writes and deletions, a restarted process
        lists only complete checkpoints: each listed one loads, and holds the state of exactly one save. Every
        checkpoint and score that was not the target of the interrupted operation is unchanged, scores stay
        readable, and a completed operation has exactly its documented effect.""",
        over=["crash_points", "histories", "fault_sequences"],
        quant="""every history of save (blocking or asynchronous, full or model-only), score, delete and
        delete-all-but-model operations, every file-system effect at which the process dies or gets ENOSPC""",
        why="""No test drives the checkpoint manager at all; crash points inside a save or a delete are not
        reachable from a unit test that only sees completed calls.""",
        files=["checkpoint/manager.py", "io.py", "file_system.py"],
        mech=[
            ("write into step_N.tmp, rename on commit", "checkpoint/manager.py:_commit_checkpoint"),
            ("deletion", "checkpoint/manager.py:delete_checkpoint"),
            ("score file", "checkpoint/manager.py:save_score"),
        ],
        observe=["checkpoint directory as seen by a fresh manager"],
        technique="explicit-state search over durable file-system states of the real checkpoint manager, with a crash or I/O error at every effect",
        note="""Exhaustive over the closure of states reachable with steps {1,12}, two content versions, and one
        crash (two in thorough) per history, on the real manager over an in-memory file system. Trusts the
        file-system model: effects persist in order, directory rename is atomic.""",
    ),
    dict(
        id="C02",
        title="A multi-process checkpoint becomes visible only when every process wrote it",
        statement="""While several processes save a checkpoint together (data, sharded or tensor parallel,
        synchronously or in the background), it becomes visible only after every process has stored its complete
        part, never changes afterwards, and each process reads back exactly the state it had when it called save,
        whatever it modified later. All processes agree on when the save has completed, notifications fire exactly
        once and only after the checkpoint is visible, a process whose write fails keeps the checkpoint invisible,
        and no interleaving deadlocks.""",
        over=["schedules", "configurations", "fault_sequences"],
        quant="""every bounded interleaving of ranks and background writers, every topology of up to 4 processes,
        every failing write""",
        why="""Tests never run the manager, let alone several ranks; the order of background writers, renames and
        barriers is up to the scheduler.""",
        files=["checkpoint/manager.py", "gang.py", "utils/threading.py"],
        mech=[
            ("barrier before and after the rename", "checkpoint/manager.py:_commit_checkpoint"),
            ("all-reduce completion poll", "checkpoint/manager.py:maybe_complete_save_operation"),
            ("host snapshot", "checkpoint/manager.py:_copy_state_dict_to_host"),
        ],
        technique="stateless model checking: the real manager on simulated ranks under a controlled scheduler, all schedules within a deviation bound from 4 base schedules",
        note="""All schedules with at most 1 deviation (thorough: 2 for two processes) from four base policies;
        collectives modelled as synchronising; scheduling points are file-system effects, collectives and future
        polls/waits.""",
    ),
    dict(
        id="C04",
        title="Retention never deletes the last, best-n, last-n or periodic checkpoints",
        statement="""For any set of existing checkpoints and scores and any retention policy, exactly those
        checkpoints are selected for deletion that are neither the most recent one, nor among the n most recent,
        nor among the n highest scored, nor at a multiple of the keep interval. Deleting them leaves all other
        checkpoints and scores untouched and makes nothing else stale; without a policy nothing is selected, and a
        retention of less than one is refused.""",
        over=["inputs", "configurations", "histories"],
        quant="all subsets of steps, score assignments (ties, missing, negative) and policy combinations",
        why="""No test covers retention; a handful of directories would not exercise ties, missing scores,
        numeric ordering and policy combinations.""",
        files=["checkpoint/manager.py"],
        mech=[("stale selection", "checkpoint/manager.py:get_stale_step_numbers")],
        technique="exhaustive enumeration of directory states x policies on the real manager against a set-theoretic oracle",
        note="""Complete for 4 (thorough: 5) steps incl. 1- and 2-digit numbers, 4 score values, 64 policies.
        With tied scores any valid choice of the best n is accepted.""",
    ),
    dict(
        id="C05",
        title="Published checkpoint cards always point to the checkpoints they name",
        statement="""For any checkpoint directory, in any path, the model cards published for it are exactly one per
        existing checkpoint plus last, best and best-by-rank aliases; each resolves to the model directory of the
        right step, with the recorded model family and configuration. The aliases agree with what the training run
        itself regards as the last and the best checkpoints.""",
        over=["inputs", "histories"],
        quant="all subsets of steps, score assignments and directory names with special characters",
        why="""No test loads the metadata of a checkpoint directory; agreement of two independent readers of
        the same directory needs every directory state.""",
        files=["checkpoint/model_metadata.py", "checkpoint/manager.py", "utils/uri.py", "assets/card.py"],
        mech=[
            ("card synthesis", "checkpoint/model_metadata.py:StandardModelMetadataLoader.load"),
            ("path <-> URI", "utils/uri.py"),
        ],
        technique="exhaustive enumeration of checkpoint directory states; differential check of the card provider against the checkpoint manager",
        note="""Complete for 3 (thorough: 4) steps, 4 score values, 3 directory names; scores and steps are
        written by the real manager.""",
    ),
    dict(
        id="T01",
        title="Training does each scheduled action exactly when the configuration says",
        statement="""For any combination of data size, gradient accumulation, end condition (steps, data epochs), and
        cadences and delays (in steps and data epochs) for checkpoints, validation and metric publication, a run
        trains exactly the batches of the data in order, numbers steps and epochs consecutively, and publishes,
        validates and saves at exactly the prescribed steps, never twice for the same reason. The last step is
        always published, validated and saved. A stop request is honoured after the current step and leaves a
        complete checkpoint of it, and an early stop leaves one of the step that was validated.""",
        over=["configurations", "histories"],
        quant="all schedules within the bounds, a stop request at every event, an early stop at every validation",
        why="""The trainer has no tests; cadences, epoch ends, end of training and stop requests interact, and the
        combinations are too many to sample.""",
        files=["trainer.py", "datasets/data_reader.py", "validator.py", "checkpoint/manager.py"],
        mech=[("state machine", "trainer.py:Trainer._do_run"), ("cadence", "trainer.py:Trainer._should_do")],
        observe=["metric recorder, validation unit, checkpoint hooks, checkpoint directory"],
        level="exploration",
        technique="exhaustive enumeration of schedules x stop points on the real trainer, compared with an executable specification of the event sequence",
        note="""Complete for up to 5 batches per epoch, 5 end conditions (thorough: 7), 20 (35) cadences per action,
        with two background cadences of the other actions; single process.""",
    ),
    dict(
        id="T02",
        title="Interrupting and resuming training any number of times changes nothing",
        statement="""If training is killed at any moment, or stopped on request, and restarted, again and again, it
        continues from the most recent complete checkpoint and then trains the same batches with the same random
        numbers, reports the same metrics, learning rates and data epochs at the same steps, saves the same
        checkpoints and ends with the same parameters as an uninterrupted run. Once a checkpoint is complete,
        progress never falls behind it, and restarting a finished run does nothing.""",
        over=["crash_points", "histories", "configurations"],
        quant="""every file-system effect of a run as the crash point, repeated without limit (bounded where
        checkpoints are being deleted), every stop request, 11 training configurations""",
        why="""No test runs the trainer or restores it; equivalence must hold for each of thousands of reachable
        directory states.""",
        files=[
            "trainer.py",
            "checkpoint/manager.py",
            "datasets/data_reader.py",
            "validator.py",
            "utils/rng.py",
            "metrics/bag.py",
            "optim/fp16_loss_scaler.py",
            "optim/lr_schedulers/lr_scheduler.py",
        ],
        mech=[
            ("restore", "trainer.py:Trainer._maybe_restore_state"),
            ("trainer state", "trainer.py:_TrainerProxy"),
            ("RNG isolation of validation", "validator.py:StandardValidator.run"),
        ],
        technique="explicit-state search over durable states of real training runs: every state is resumed by the real trainer and compared with the uninterrupted run",
        note="""Closure over crash states (2 crashes deep in quick, unlimited in thorough except for
        configurations that delete checkpoints: 1 and 2), one stop request per history. Single process, CPU.""",
    ),
    dict(
        id="T04",
        title="Distributed and accumulated training steps equal one big-batch step",
        statement="""However the examples of a step are spread over data parallel processes and accumulated
        micro-batches, including processes or micro-batches without any target and with gradient
        synchronisation deferred or not, every process ends the step with the parameters that a single process gets
        from all examples at once, with the same clipping; the reported gradient norm and metrics are those of
        the whole step, recorded once, and the processes never diverge in their collective operations.""",
        over=["configurations", "inputs"],
        quant="all assignments of example counts to processes, micro-batches and steps within the bounds",
        why="""Tests run one process; imbalance between processes is what breaks normalisation or deadlocks.""",
        files=["trainer.py", "nn/utils/grad.py", "nn/data_parallel.py", "gang.py", "metrics/bag.py"],
        mech=[
            ("normalisation by targets", "nn/utils/grad.py:normalize_grads"),
            ("deferred synchronisation", "trainer.py:Trainer._maybe_no_sync"),
            ("metric publication", "trainer.py:Trainer._publish_metrics"),
        ],
        level="exploration",
        technique="exhaustive enumeration of example distributions over simulated ranks running the real trainer, against a single-process reference; collective mismatch and deadlock detection",
        note="""Up to 3 data parallel processes (thorough: 4), 2 tensor parallel, 3 micro-batches, 2 steps, 0-4
        examples. DDP is modelled (averaging at the synchronised backward pass).""",
    ),
    dict(
        id="T05",
        title="A step with overflowing fp16 gradients leaves no trace but a lower scale",
        statement="""When gradients overflow in half-precision training, parameters, optimizer and learning rate
        state, step numbers, metrics and checkpoints are the same as if the batches of the overflowed attempts had
        not been in the data.""",
        over=["inputs", "histories"],
        quant="every subset of overflowing batches over two data epochs",
        why="Which attempts overflow, and where they fall relative to cadences and epoch ends, is data dependent.",
        files=["trainer.py", "optim/fp16_loss_scaler.py", "metrics/bag.py"],
        mech=[
            ("repeat step", "trainer.py:Trainer._repeat_step"),
            ("metric rollback", "metrics/bag.py:MetricBag.rollback_updates"),
        ],
        level="exploration",
        technique="exhaustive enumeration of overflow patterns; differential execution of the real trainer with and without the overflowing batches",
        note="All subsets of 4-8 batches in 4 configurations (thorough: 10 batches).",
    ),
    dict(
        id="D01",
        title="Processes reading shards of a dataset stay in step and lose no data",
        statement="""However many batches each process has, all data parallel processes get the same number of steps
        per data epoch: with synchronisation until the first end, every process gets the same number of batches in
        every step and stops with the shortest shard; until the last end, every batch of every shard is
        delivered exactly once, in order, with empty steps for the shards that ended. A reader restored from its
        state, at any point, continues with exactly the next batch, an ended reader stays ended until it is reset,
        and pipeline errors are reported, not swallowed.""",
        over=["inputs", "configurations", "histories"],
        quant="all shard lengths, accumulation counts and modes within the bounds, with a reset, restore or rewind at every read",
        why="""No test covers the reader; uneven shards and restore points are what make real jobs hang or lose
        data.""",
        files=["datasets/data_reader.py", "gang.py"],
        mech=[("end-of-data agreement", "datasets/data_reader.py:DataPipelineReader.__next__"),
              ("minimum over processes", "datasets/data_reader.py:_min_num_batches")],
        technique="exhaustive enumeration of shard lengths x configurations x event scripts on the real reader over simulated ranks, against an executable specification",
        note="""Up to 3 data parallel processes, up to 5 batches each, accumulation up to 3 (thorough: 4), one event
        (thorough: two). The native pipeline is replaced by a Python one with the same interface.""",
    ),
    dict(
        id="G01",
        title="Parallel gangs partition the processes and collectives reach only members",
        statement="""For every number of processes, tensor parallel size and data parallel layout, each process
        belongs to exactly one gang of each kind, as documented: tensor parallel gangs are adjacent processes,
        replication and sharding gangs factor the data parallel gang, and invalid sizes or ranks are refused on
        every process. Every collective on a gang delivers the data of exactly its members, in rank order, with
        source ranks relative to the gang, on simulated gangs, on real process groups and on the NCCL path.""",
        over=["configurations", "inputs"],
        quant="all world sizes up to 12 (thorough 24; NCCL path 64), all tensor parallel sizes and layouts, every collective and source rank",
        why="""Tests run in one process and check a few fixed sizes; rank mapping errors only appear with many
        processes.""",
        files=["gang.py"],
        mech=[
            ("tensor/data parallel split", "gang.py:create_parallel_gangs"),
            ("FSDP split", "gang.py:create_fsdp_gangs"),
            ("process group gang", "gang.py:ProcessGroupGang"),
        ],
        technique="exhaustive enumeration of topologies; every process runs every collective on simulated ranks, and the same program is replayed on real gloo process groups",
        note="""Conformance of the simulated ranks is checked against gloo with up to 4 (thorough: 8) real processes.
        For NCCL only group creation is explored, with a stand-in for split_group().""",
    ),
    dict(
        id="M01",
        title="Metric updates are transactional and independent of how data is distributed",
        statement="""After any sequence of updates, transactions (begin, commit, rollback), resets, saves and restores,
        each metric has exactly the value that the updates in effect define, and misuse or malformed states are
        rejected. Synchronised over any number of processes with any distribution of the updates, including
        processes without any, the metrics equal those of one process that saw all the data, and synchronising
        does not change the local metrics.""",
        over=["histories", "inputs", "configurations"],
        quant="all operation sequences up to length 5 (thorough: 6), all assignments of update streams to up to 3 processes",
        why="Tests update one metric on one process; rollback and merge errors need sequences and several processes.",
        files=["metrics/bag.py", "metrics/aggregation.py", "metrics/text/wer.py", "metrics/text/bleu.py", "metrics/text/chrf.py"],
        mech=[
            ("transactions", "metrics/bag.py:MetricBag.rollback_updates"),
            ("synchronisation", "metrics/bag.py:sync_and_compute_metrics"),
        ],
        technique="exhaustive enumeration of operation sequences against a reference model; all distributions of update streams over simulated ranks, replayed on real gloo processes",
        note="""Mean, sum, min, max, WER, BLEU, chrF++ and throughput; values from first principles (own edit
        distance; sacrebleu for BLEU and chrF).""",
    ),
    dict(
        id="L01",
        title="Learning rate schedules follow their definition at every step, also resumed",
        statement="""At every step, for every parameter group, configuration and kind of learning rate value (number or
        tensor), the learning rate that the optimizer uses is the one that the definition of the schedule gives:
        warmup, hold, decay and annealing stages and cycles start and end at the right steps, with the right
        start, peak and final values. A schedule restored from its state at any step continues with exactly the
        same values, and one created from a recipe configuration equals one created by hand, with invalid
        configurations refused.""",
        over=["configurations", "histories", "inputs"],
        quant="all configurations of five schedules within the bounds, every step to beyond the end, a restart at every step",
        why="Tests check a few steps of one configuration each; stage boundaries depend on rounding and on all parameters.",
        files=["optim/lr_schedulers/cosine_annealing.py", "optim/lr_schedulers/tri_stage.py", "optim/lr_schedulers/myle.py",
               "optim/lr_schedulers/noam.py", "optim/lr_schedulers/polynomial_decay.py",
               "optim/lr_schedulers/lr_scheduler.py", "recipe/internal/lr_schedulers.py"],
        mech=[("cycle number and position", "optim/lr_schedulers/cosine_annealing.py"), ("stages", "optim/lr_schedulers/tri_stage.py")],
        technique="exhaustive step-by-step exploration of every configuration on the real schedulers and a real optimizer, against independent closed forms in exact arithmetic",
        note="""Up to 800 steps, 1 and 2 groups, 700 configurations (thorough: more ratios and lengths). Where cycles or
        stages do not align with steps, an interval of one step is accepted; growth factors of at least 1.""",
    ),
    dict(
        id="P01",
        title="Tensor parallel layers and models compute what the unsharded ones compute",
        statement="""For every tensor parallel size that divides the model, every process computes the outputs, losses
        and gradients that the same module without tensor parallelism computes: the collective operations (reduce,
        scatter, gather, reduce-on-backward) and their gradients match their definitions and never modify the caller's
        tensors, and this carries over to sharded projections, embeddings, attention, feed-forward networks, decoder
        layers and whole language models. Parameters of the processes concatenate to the unsharded parameters,
        parameters that are not sharded get the same gradient everywhere, and the norm of gradients and clipping act
        on the whole model.""",
        over=["configurations", "inputs", "schedules"],
        quant="all configurations of the layers and 2 to 4 processes within the bounds, every operation, dimension and gradient layout",
        why="""Unit tests run in one process, where sharded layers are ordinary layers; sharding errors appear only in
        gradients, with biases, with grouped keys, or with particular options.""",
        files=["ops/tensor_parallel.py", "nn/projection.py", "nn/embedding.py", "nn/sharded.py",
               "models/transformer/multihead_attention.py", "models/transformer/ffn.py", "nn/utils/grad.py"],
        mech=[
            ("collectives", "ops/tensor_parallel.py"),
            ("sharded projections", "nn/projection.py:ColumnShardedLinear, RowShardedLinear"),
            ("sharded embeddings", "nn/embedding.py:VocabShardedEmbedding, ShardedEmbedding"),
        ],
        technique="exhaustive enumeration of layer configurations and topologies on simulated ranks running the real modules, compared with the unsharded module; collectives replayed on real gloo processes",
        note="""Exact twin comparison in double precision (rotary encoders compute in single). Normalisation of heads
        under tensor parallelism and clipping across tensor parallel ranks are known findings.""",
    ),
    dict(
        id="K01",
        title="Loading a model checkpoint gives every process exactly its shard, or fails",
        statement="""For every format (single file, shards by tensor and data parallelism, Safetensors, LLaMA reference
        shards), source topology and target topology, loading yields every parameter exactly once with exactly the
        values of the unsharded model, restricted to the shard of the loading process. Files that are missing, torn
        at any byte, of the wrong type or shape, inconsistent between shards or not divisible are reported and never
        yield a silently truncated, duplicated or incomplete parameter, and loading into a model reports missing and
        unexpected parameters. Models that the training checkpoint manager saved can be loaded on any
        topology.""",
        over=["configurations", "inputs", "crash points"],
        quant="all source and target topologies within the bounds, every parameter kind, every single-file fault and truncation point",
        why="Tests use single-process checkpoints with one file; resharding and faults need many topologies and torn files.",
        files=["model_checkpoint/native.py", "model_checkpoint/basic.py", "model_checkpoint/safetensors.py", "models/llama/checkpoint.py",
               "models/utils/checkpoint.py", "model_checkpoint/common.py", "model_checkpoint/loader.py", "nn/sharded.py"],
        mech=[
            ("resharding", "model_checkpoint/common.py:reshard_tensor"),
            ("native shards", "model_checkpoint/native.py"),
        ],
        technique="exhaustive enumeration of formats, topologies, faults and truncation points on the real loaders over an in-memory file system",
        note="""Sources and targets up to 4 (thorough: 6) tensor parallel and up to 3 data parallel shards. A file whose
        content contradicts its own shards may fail with any error; extra parameters outside the first shard are
        ignored as documented.""",
    ),
    dict(
        id="K02",
        title="Conversion from and to other frameworks preserves what models compute",
        statement="""A model exported to Hugging Face Transformers is accepted by Transformers with no parameter missing
        or left over, keeps the architecture that its configuration describes, and computes the same logits, for
        every supported configuration of the LLaMA, Qwen, OLMO and Gemma3n families; importing it back gives the original
        parameters. Checkpoints in the formats of the reference implementations (LLaMA, fairseq NLLB and wav2vec 2.0)
        are recognised and converted to models that compute the same. Exporting never changes the caller's
        state.""",
        over=["configurations", "inputs"],
        quant="all combinations of the configuration options within the bounds and all registered architectures",
        why="""The tests check names of a few keys or need downloads; whether the other framework computes the same
        depends on each option of the configuration.""",
        files=["models/llama/interop.py", "models/qwen/interop.py", "models/olmo/interop.py",
               "models/gemma3n/interop.py", "models/nllb/interop.py", "models/wav2vec2/interop.py", "models/utils/checkpoint.py", "models/hg/converter.py"],
        mech=[("key maps and permutations", "models/llama/interop.py"), ("export", "models/hg/converter.py:save_hugging_face_model")],
        technique="exhaustive enumeration of model configurations; each exported model is loaded by Transformers and compared with the real fairseq2 model, and converted back",
        note="""Tiny models with random parameters in all combinations of options that the other framework can
        represent; the registered architectures are compared by configuration only.""",
    ),
    dict(
        id="N01",
        title="Incremental decoding computes what a full forward pass computes",
        statement="""For every way of splitting a sequence into decoding steps of one or more tokens, every reordering,
        duplication or removal of the sequences of the batch between steps, and every capacity of the state, the outputs of
        each step equal those of a full forward pass over the history of each sequence. This holds for all attention biases
        (causal, sliding window, chunked, ALiBi), attention implementations, position encoders and attention states,
        including encoder-decoder attention with sequences of different lengths, and for the language and
        encoder-decoder models built from them. Position encoders refuse positions beyond their maximum length.""",
        over=["histories", "configurations", "inputs"],
        quant="all compositions of up to 6 (thorough 8) tokens, all sequences of reorderings up to 4 (thorough 5) tokens, 120 modules and models",
        why="""Tests decode a single sequence token by token; windows, multi-token steps and reorderings interact only in
        particular histories.""",
        files=["models/transformer/multihead_attention.py", "models/transformer/attention_bias.py", "nn/incremental_state.py",
               "nn/position_encoder.py", "models/transformer/model.py", "models/olmo/attention.py", "models/gemma3n/decoder_layer.py"],
        mech=[
            ("attention states", "models/transformer/multihead_attention.py:FullAttentionState, LocalAttentionState, StaticAttentionState"),
            ("bias of single steps", "models/transformer/attention_bias.py:maybe_get_attention_bias_tensor"),
        ],
        technique="exhaustive exploration of all step compositions and batch reorderings on the real modules, every output compared with a full forward pass of each row's history",
        note="Up to 3 rows, 2 initially; tiny models with random parameters; equality within 2e-4 in single precision.",
    ),
    dict(
        id="B01",
        title="Padding, packing and batch composition never change a sequence's result",
        statement="""The outputs and parameter gradients that a model computes for a sequence depend only on that sequence: not on
        the other sequences of the batch, on the amount or content of padding, or on whether sequences are padded or
        packed, for every attention implementation, bias, position encoder, and for decoders, encoders, conformers,
        encoder-decoder and speech models. Attention equals its definition position by position (a causal output
        depends on no later position, windows and chunks have exactly their size), and padding never yields
        non-finite values. Batch layouts describe exactly the given lengths and refuse invalid ones.""",
        over=["inputs", "configurations"],
        quant="all vectors of sequence lengths of up to 3 sequences and up to 5 positions, with and without excess width, padded and packed",
        why="Tests use one or two shapes; masks fail for particular combinations such as length one, equal lengths with excess width, or packed blocks.",
        files=["nn/batch_layout.py", "models/transformer/attention_bias.py", "models/transformer/sdpa/torch.py",
               "models/transformer/sdpa/naive.py", "models/transformer/sdpa/soft_capped.py", "models/transformer/sdpa/shaw.py",
               "models/transformer/sdpa/relative.py", "models/transformer/sdpa/flash2.py", "nn/position_encoder.py",
               "models/conformer/convolution.py", "models/wav2vec2/position_encoder.py", "models/wav2vec2/feature_extractor.py"],
        mech=[("bias of a batch", "models/transformer/attention_bias.py:materialize_attention_bias"), ("layout", "nn/batch_layout.py:BatchLayout")],
        technique="exhaustive enumeration of batch layouts on the real modules and models with garbage in all padding, compared with each sequence alone and with attention computed from its definition",
        note="""FlashAttention 2 runs with a stand-in for its kernels that follows their documentation. Not covered: strided
        convolutions over padding (s2t subsampler, stacked wav2vec 2.0 position encoder) and group normalisation, which
        depend on padding as in the reference implementations.""",
    ),
    dict(
        id="G02",
        title="Sequence generation follows its options exactly for any model predictions",
        statement="""For every model and batch of prompts, beam search returns the hypotheses and scores that its
        step-by-step definition yields (best candidates of all hypotheses by accumulated score; EOS, length, banned
        sequence and repetition constraints, temperature, UNK penalty, length normalisation; best first), and sampling
        draws only from the constrained distribution of the model and reports the probabilities it used; minimum and
        maximum lengths count from the longest prompt of the batch. The result for a prompt does not depend on the
        other prompts of the batch, on padding values or on the prefill chunk size. Top-p and top-k samplers draw from
        exactly the defined candidates with renormalised probability.""",
        over=["inputs", "configurations", "histories"],
        quant="all predictions of a table-driven model over a vocabulary of 5 at up to 5 (thorough: 9) prefixes, beam sizes 1 to 3, all sampling outcomes, prompt batches with equal and different lengths",
        why="""Tests have no generator tests beyond step processors; wrong bookkeeping of hypotheses shows only for
        particular predictions.""",
        files=["generation/beam_search/generator.py", "generation/beam_search/algo.py", "generation/sampling/generator.py", "generation/sampling/sampler.py", "generation/step_processor.py"],
        mech=[
            ("beam search", "generation/beam_search/generator.py:_AbstractBeamSearchSequenceGeneratorOp"),
            ("sampling", "generation/sampling/generator.py:_AbstractSamplingSequenceGeneratorOp"),
        ],
        technique="exhaustive exploration of model predictions and sampling outcomes on the real generators, compared with an independent reference",
        note="""Near ties are skipped (counted). If every candidate is banned, the outcome of sampling is not
        specified. Real models (LLaMA, LLaMA 4, Qwen3, Mistral, OLMo, Gemma3n, NLLB) with random weights bind the table-driven
        model to real decoding.""",
    ),
    dict(
        id="F01",
        title="Every file system implementation acts like the local file system",
        statement="""For every directory tree and every operation, fairseq2's file system for plain paths and for
        file:// and local:// URIs has the result and the effect of the native local file system: moves replace or
        fail but never nest or half-copy, removals remove exactly what is named, failures are OSErrors that leave the
        tree unchanged, and names with special characters are taken literally. On a remote file system every
        operation that creates no conflict has the same result and effect, with paths as URIs.""",
        over=["inputs", "histories"],
        quant="all trees over two top-level names with up to two children and 8 pairs of names (plain, patterns, ~, dot, spaces, non-ASCII), all operations on 7 paths and pairs of paths",
        why="Tests exercise each operation once on a fresh directory; the differences are in occupied targets, wrong kinds and special names.",
        files=["file_system.py"],
        mech=[
            ("default file system", "file_system.py:FileSystemRegistry"),
            ("fsspec adapter", "file_system.py:FSspecFileSystem"),
        ],
        technique="exhaustive enumeration of (directory tree, operation) pairs, each executed on every real implementation and compared with the local file system; as the implementations are stateless this covers all histories",
        note="""Runs as an unprivileged user in a scratch directory. fsspec's memory file system stands in for object stores. Also
        validates the in-memory file system of the other checks against the local one.""",
    ),
    dict(
        id="A01",
        title="Downloaded assets are complete and intact, or the download fails",
        statement="""If a download of a model, tokenizer or dataset returns a path, exactly the bytes the server holds
        (of an archive: exactly the files in it) are there, even if earlier downloads were interrupted, crashed or
        failed at any point, and the next regular download succeeds without manual clean-up; every failure of the
        server, the connection or the disk is an AssetDownloadError. A cached asset is returned without network access,
        and a forced download never returns older content. Nothing is ever written outside of the asset cache,
        whatever names the server or an archive contains.""",
        over=["crash points", "faults", "histories", "inputs"],
        quant="30 kinds of assets (files, archives, broken and hostile ones), histories of up to 3 (archives of each type: 5) calls, each ended at any file operation by a crash, full disk or interrupt or by any fault of the connection",
        why="Tests do not download; a partial archive or directory left behind by an interruption is used as the asset only in particular histories.",
        files=["assets/download_manager.py"],
        mech=[("download and extraction", "assets/download_manager.py:_AssetDownloadOperation")],
        technique="explicit-state search over the durable states of the asset cache, the transition relation being calls of the real download manager with every crash point and fault",
        note="""The server is a stand-in behind urllib's OpenerDirector. File operations persist in order. One process at a
        time downloads an asset (fairseq2 has no lock; ranks take turns). The Hugging Face Hub client is out of scope.""",
    ),
    dict(
        id="W01",
        title="Data parallel models train exactly like the plain model on all data",
        statement="""For every sequence of forward and backward passes with and without synchronisation, gradient clipping,
        optimizer steps, evaluations, saves and restores, a model wrapped with DDP, FSDP1 or FSDP2 (hybrid or not, at any
        wrapping granularity, with or without activation checkpointing) has the gradients, gradient norms, parameters,
        buffers and outputs of the plain model trained in one process on the data of all processes. All processes start
        with the model of the first one, even if the others were never initialised. Summoning gives the full parameters,
        usable by any process alone, and changes nothing, and the saved state of each process is its shard, from which
        the same wrapper or a single process restores the model.""",
        over=["histories", "configurations", "inputs"],
        quant="all operation sequences up to length 2 (partly 3) on 7 modules (tied, frozen, unused, tiny, with buffers) with 12 wrapper configurations on 2 to 4 processes; 12 models of 10 families, all granularities",
        why="Tests never run a real data parallel wrapper; a missed hook, buffer or shard shows only for particular modules and sequences.",
        files=["nn/ddp.py", "nn/fsdp/common.py", "nn/fsdp/fsdp1.py", "nn/fsdp/fsdp2.py", "nn/fsdp/unified.py", "nn/data_parallel.py",
               "nn/utils/grad.py", "nn/utils/module.py", "models/utils/fsdp.py", "models/utils/ac.py"],
        mech=[
            ("DDP", "nn/ddp.py:to_ddp"),
            ("FSDP2", "nn/fsdp/fsdp2.py:to_fsdp2"),
            ("facade", "nn/data_parallel.py:DataParallelFacade"),
        ],
        technique="exhaustive enumeration of operation sequences and configurations on the real wrappers in real processes over gloo, in lockstep with a single-process reference",
        note="""The interleaving of the processes is not controlled (they only interact through collectives). FSDP1 runs without
        initial synchronisation, which it does on GPUs only. A forward pass of an FSDP model without gradients outside of
        summon_full_parameters() is not specified, as PyTorch leaves parameters unsharded then.""",
    ),
    dict(
        id="S01",
        title="A recipe or model runs with exactly the configuration the user asked for",
        statement="""The configuration of a recipe is its default with the overrides of the file and then of the command line
        applied in the order given: every override sets, replaces or deletes exactly what it names and everything else keeps
        its default, environment and path directives are replaced exactly once, and the same holds for the overrides of
        a model architecture, whose registered configuration never changes. Every configuration survives being written as YAML
        and read again, text that does not fit a type is refused, what is accepted has that type, and validation reports exactly
        the invalid parts. Sweep tags (output directories) are equal in all processes and for equal configurations, and differ
        if the configuration or the number of processes does.""",
        over=["inputs", "configurations", "histories"],
        quant="""every type expression up to nesting depth 2, every merge of trees up to depth 2, every sequence of up to 3
        command line items, every field of every recipe section and of every architecture of every model family, pairs of
        fields, sweep formats and directive strings of up to 4 and 3 tokens""",
        why="Tests check a handful of fields; a lost or misapplied override silently trains another model or overwrites another run.",
        files=["utils/config.py", "utils/structured.py", "utils/argparse.py", "utils/validation.py", "utils/yaml.py", "recipe/cli.py",
               "recipe/config.py", "recipe/internal/config.py", "recipe/internal/asset_config.py", "recipe/internal/sweep_tag.py"],
        mech=[
            ("merging", "utils/config.py:StandardConfigMerger"),
            ("structuring", "utils/structured.py:StandardValueConverter"),
            ("loading", "recipe/cli.py:_RecipeConfigLoader"),
            ("tags", "recipe/internal/sweep_tag.py:_StandardSweepTagGenerator"),
        ],
        technique="bounded-exhaustive enumeration of override sequences, values and types on the real configuration code, in lockstep with a reference",
        note="""The keys of a map in a file are merged into the default (by design), so that written configurations are read
        under _set_. Which member of an ambiguous union is taken and whether text is accepted as a sequence are unspecified.
        Sweep tags are 32-bit hashes: collisions are only looked for among single changes.""",
    ),
    dict(
        id="A02",
        title="An asset name always resolves to the same card, with everything it inherits",
        statement="""Looking up an asset by name, with or without an environment, gives the asset itself, overlaid by its
        variant for the user or else for the environment, on top of its base asset resolved the same way, whatever
        other assets, sources and earlier look-ups there are; missing bases, assets based on themselves, invalid names and
        assets defined twice are reported. Relative paths are relative to the file that defines
        them, the configuration of a card is that of the architecture with the changes of its bases and then its own, and
        neither is modified by using it. Searching finds exactly the assets with the value, and assets are read from exactly
        the YAML files of the documented directories.""",
        over=["inputs", "configurations", "histories"],
        quant="""every world of up to 6 assets with 3 names, 2 environments and 2 sources, all names looked up in sequence; every tree
        of up to 3 metadata files; every combination of directory variables; every chain of up to 3 cards with configurations""",
        why="There is one test of a hand-made card; look-ups, environments, bases and sources are never combined in any test.",
        files=["assets/store.py", "assets/card.py", "assets/metadata_provider.py", "assets/dirs.py"],
        mech=[
            ("store", "assets/store.py:StandardAssetStore"),
            ("cards", "assets/card.py:AssetCard"),
            ("configuration", "assets/card.py:StandardAssetConfigLoader"),
            ("sources", "assets/metadata_provider.py:StandardFileAssetMetadataLoader"),
        ],
        technique="bounded-exhaustive enumeration of asset worlds and look-up sequences on the real store and loaders, in lockstep with a reference",
        note="""An environment-specific asset without a plain one is not found, an unknown explicit environment gives the plain
        asset, and an environment's value of a field replaces the plain one (by design). Package sources are not enumerated.""",
    ),
]
