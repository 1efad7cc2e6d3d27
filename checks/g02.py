"""G02: sequence generators decode exactly as their configuration says."""

from __future__ import annotations

import itertools
import math
from typing import Any, Callable

from mc import boot
from mc.explore import Ctl, Explorer
from mc.par import run_jobs
from mc.report import Report, Violation

boot.init()

import torch  # noqa: E402
from torch import Tensor  # noqa: E402

from fairseq2.data.tokenizers import VocabularyInfo  # noqa: E402
from fairseq2.generation.beam_search import BeamSearchSeq2SeqGenerator, BeamSearchSequenceGenerator  # noqa: E402
from fairseq2.generation.sampling import (  # noqa: E402
    Sampler,
    SamplingSeq2SeqGenerator,
    SamplingSequenceGenerator,
    TopKSampler,
    TopPSampler,
)
from fairseq2.generation.step_processor import BannedSequenceProcessor, NGramRepeatBlockProcessor  # noqa: E402
from fairseq2.models.clm import CausalLM  # noqa: E402
from fairseq2.models.seq2seq import Seq2SeqModel  # noqa: E402
from fairseq2.nn import BatchLayout, IncrementalState  # noqa: E402

LEVEL = "model_checking"

PAD, EOS, UNK, A, B = range(5)
V = 5
INF = math.inf

Prefix = tuple[int, ...]

# What a model may predict after a prefix; PAD and UNK are always tempting.
LOGITS = [
    #   PAD  EOS  UNK  A    B
    [2.3, 0.1, 1.4, 2.0, 1.1],
    [0.2, 2.1, 0.6, 1.1, 0.4],
    [1.2, 1.3, 0.1, 0.5, 2.2],
]


class Table:
    """The predictions of a model: a distribution per (source, prefix), chosen by the explorer or fixed."""

    def __init__(self, ctl: Ctl | None, num_options: int, free: int, salt: int = 0, points: int = 5) -> None:
        self.ctl, self.n, self.free, self.salt, self.points = ctl, num_options, free, salt, points
        self.memo: dict[Any, list[float]] = {}

    def logits(self, source: Any, prefix: Prefix) -> list[float]:
        key = (source, prefix)
        row = self.memo.get(key)
        if row is None:
            h = self.salt * 7 + 3
            for t in prefix:
                h = (h * 31 + t * 17 + 5) % 10007
            for t in source or ():
                h = (h * 37 + t * 13 + 1) % 10007
            # Up to `points` prefixes that begin with the `free` token have a free choice.
            if self.ctl is not None and self.n > 1 and prefix[0] == self.free and len(self.ctl.points) < self.points:
                opt = self.ctl.choose(self.n, f"model{prefix}")
            else:
                opt = h % len(LOGITS)
            # Avoid ties.
            row = [x + ((h * (i + 3) * 7919) % 997) / 4000 for i, x in enumerate(LOGITS[opt])]
            self.memo[key] = row
        return row


class _State(IncrementalState):
    def __init__(self, rows: list) -> None:
        self.rows = rows

    def reorder(self, new_order: Tensor) -> None:
        self.rows = [self.rows[i] for i in new_order.tolist()]

    def size_bytes(self) -> int:
        return 1

    def capacity_bytes(self) -> int:
        return 1


class Core:
    """Decodes rows from the state only, like a model with a key/value cache."""

    def __init__(self, table: Table, chunk: int | None, limit: int) -> None:
        self.table, self.chunk, self.limit = table, chunk, limit
        self.rows: list = []
        self.num_calls = 0

    def decode(self, owner: Any, sources: list | None, seqs: Tensor, layout: BatchLayout, bag: Any) -> Tensor:
        self.num_calls += 1
        if layout.padded or layout.packed:
            raise Violation("decode-layout", "padded or packed step passed to the model")
        st = bag.maybe_get_state(owner, _State)
        toks = seqs.tolist()
        if st is None:
            if sources is None:
                rows = [(None, ()) for _ in toks]
            else:
                if len(sources) != len(toks):
                    raise Violation("encoder-batch", f"{len(sources)} source sequences but {len(toks)} target sequences in the first step")
                rows = [(s, ()) for s in sources]
            st = _State(rows)
            bag.set_state(owner, st)
        if len(st.rows) != len(toks):
            raise Violation("state-batch", f"{len(toks)} sequences but the state holds {len(st.rows)}")
        out = []
        for i, (src, hist) in enumerate(st.rows):
            if len(hist) != bag.step_nr:
                raise Violation("step-nr", f"step number {bag.step_nr} but {len(hist)} steps in the state")
            steps = []
            for t in toks[i]:
                if not 0 <= t < V:
                    raise Violation("garbage-token", f"token {t} passed to the model")
                hist = hist + (t,)
                steps.append(self.table.logits(src, hist))
            st.rows[i] = (src, hist)
            out.append(steps)
        n = len(toks[0])
        if n > 1 and self.chunk is not None and n > self.chunk:
            raise Violation("prefill-chunk", f"{n} steps decoded at once with a prefill chunk size of {self.chunk}")
        if len(st.rows[0][1]) >= self.limit:
            raise Violation("max-seq-len", f"{len(st.rows[0][1])} steps decoded, maximum sequence length is {self.limit}")
        self.rows = list(st.rows)
        return torch.tensor(out)


class FakeLM(CausalLM):
    def __init__(self, core: Core, max_seq_len: int) -> None:
        super().__init__(max_seq_len)
        self.core = core

    def forward(self, seqs: Tensor, seqs_layout: BatchLayout, targets: Any = None, *, state_bag: Any = None, **kw: Any) -> Tensor:
        return self.core.decode(self, None, seqs, seqs_layout, state_bag)


class FakeS2S(Seq2SeqModel):
    def __init__(self, core: Core, max_seq_len: int) -> None:
        super().__init__(16, max_seq_len)
        self.core = core

    def forward(self, source_seqs: Tensor, source_seqs_layout: BatchLayout, target_seqs: Tensor, target_seqs_layout: BatchLayout,
                targets: Any = None, *, state_bag: Any = None, **kw: Any) -> Tensor:
        if len(source_seqs) != len(source_seqs_layout.seq_lens):
            raise Violation("source-layout", "batch size of the source layout differs from the source")
        sources = [tuple(r[:n]) for r, n in zip(source_seqs.tolist(), source_seqs_layout.seq_lens)]
        return self.core.decode(self, sources, target_seqs, target_seqs_layout, state_bag)


# ------------------------------------------------------------ specification


def log_softmax(row: list[float], temperature: float) -> list[float]:
    row = [x / temperature for x in row]
    m = max(row)
    z = m + math.log(sum(math.exp(x - m) for x in row))
    return [x - z for x in row]


class Cfg:
    beam = 2
    min_gen = 1
    max_gen: Any = 3
    max_seq: int | None = None
    model_max = 32
    echo = False
    norm = True
    temp = 1.0
    unk = 0.0
    lenp = 1.0
    chunk: int | None = None
    proc: str = "none"
    num_gens = 1
    scores = True

    def __init__(self, **kw: Any) -> None:
        for k, v in kw.items():
            assert hasattr(Cfg, k), k
            setattr(self, k, v)
        self.kw = kw

    def __repr__(self) -> str:
        return "{" + ", ".join(f"{k}={v}" for k, v in self.kw.items()) + "}"

    def procs(self) -> list:
        return {
            "none": lambda: [],
            "ngram1": lambda: [NGramRepeatBlockProcessor(1)],
            "ngram2": lambda: [NGramRepeatBlockProcessor(2)],
            "ban": lambda: [BannedSequenceProcessor([torch.tensor([A, B]), torch.tensor([B, B, A])])],
            "ban-all": lambda: [BannedSequenceProcessor([torch.tensor([t]) for t in (UNK, A, B)])],
            "ban-eos": lambda: [BannedSequenceProcessor([torch.tensor([A, EOS])])],
        }[self.proc]()

    def banned(self, prefix: Prefix) -> set[int]:
        return {
            "none": lambda: set(),
            "ngram1": lambda: ngram_banned(1, prefix),
            "ngram2": lambda: ngram_banned(2, prefix),
            "ban": lambda: seq_banned([(A, B), (B, B, A)], prefix),
            "ban-all": lambda: {UNK, A, B},
            "ban-eos": lambda: seq_banned([(A, EOS)], prefix),
        }[self.proc]()

    def limits(self, prompts: list[Prefix], sources: list | None) -> tuple[int, int]:
        longest = max(map(len, prompts))
        max_gen = self.max_gen
        if sources is not None:
            a, b = max_gen
            max_gen = int(a * max(map(len, sources)) + b)
        cap = self.model_max if self.max_seq is None else min(self.max_seq, self.model_max)
        return min(cap, longest + self.min_gen), min(cap, longest + max_gen)


def ngram_banned(n: int, prefix: Prefix) -> set[int]:
    out = set()
    for v in range(V):
        s = prefix + (v,)
        last = s[len(s) - n:]
        if len(s) > n and any(s[i : i + n] == last for i in range(len(s) - n)):
            out.add(v)
    return out


def seq_banned(banned: list[Prefix], prefix: Prefix) -> set[int]:
    return {v for v in range(V) if any((prefix + (v,))[-len(b):] == b for b in banned)}


class Ambiguous(Exception):
    """Two candidates are too close to tell which one is better."""


def step_lprobs(cfg: Cfg, table: Table, src: Any, prefix: Prefix, min_len: int) -> list[float]:
    lp = log_softmax(table.logits(src, prefix), cfg.temp)
    for v in cfg.banned(prefix):
        lp[v] = -INF
    lp[UNK] -= cfg.unk
    lp[PAD] = -INF
    if len(prefix) < min_len - 1:
        lp[EOS] = -INF
    return lp


def ref_beam(cfg: Cfg, table: Table, src: Any, prompt: Prefix, min_len: int, max_len: int) -> list[tuple]:
    """Returns (sequence, score, step scores) per hypothesis, best first."""
    steps = [0.0]
    for i in range(1, len(prompt)):
        steps.append(log_softmax(table.logits(src, prompt[:i]), cfg.temp)[prompt[i]])
    beam = [(prompt, steps)]
    done: list[tuple] = []
    for n in range(len(prompt), max_len):
        cands = []
        for seq, st in beam:
            if n == max_len - 1:
                lp = [-INF] * V
                lp[EOS] = log_softmax(table.logits(src, seq), cfg.temp)[EOS]
            else:
                lp = step_lprobs(cfg, table, src, seq, min_len)
            for v, x in enumerate(lp):
                if x > -INF:
                    cands.append((sum(st) + x, seq + (v,), st + [x]))
        cands.sort(key=lambda c: -c[0])
        top = cands[: 2 * cfg.beam]
        for c, d in zip(top, cands[1:]):
            if c[0] - d[0] < 1e-4:
                raise Ambiguous()
        for s, seq, st in top[: cfg.beam]:
            if seq[-1] == EOS:
                done.append((s, seq, st))
                if len(done) == cfg.beam:
                    break
        if len(done) == cfg.beam:
            break
        beam = [(seq, st) for _, seq, st in top if seq[-1] != EOS][: cfg.beam]
        if not beam:
            break
    return finish(cfg, prompt, done)


def finish(cfg: Cfg, prompt: Prefix, done: list[tuple]) -> list[tuple]:
    out = []
    start = 0 if cfg.echo else len(prompt)
    for s, seq, st in done:
        if cfg.norm:
            s = s / (len(seq) - 1) ** cfg.lenp
        out.append((seq[start:], s, st[start:]))
    out.sort(key=lambda h: -h[1])
    for x, y in zip(out, out[1:]):
        if x[0] != y[0] and abs(x[1] - y[1]) < 1e-5:
            raise Ambiguous()
    return out


# ------------------------------------------------------------------ running


def batch(seqs: list[Prefix], extra: int, fill: int) -> tuple[Tensor, BatchLayout]:
    lens = [len(s) for s in seqs]
    w = max(lens) + extra
    t = torch.tensor([list(s) + [fill] * (w - len(s)) for s in seqs])
    return t, BatchLayout.of(t, lens if min(lens) < w else None)


def close(a: float, b: float) -> bool:
    if math.isinf(b) or math.isinf(a):
        return a == b
    return abs(a - b) <= 1e-4 * (1 + abs(b))


INFO = VocabularyInfo(V, UNK, None, EOS, PAD)


def check_hooks(what: str, prompts: list[Prefix], calls: list, max_len: int) -> None:
    for idx, seqs, _, prefill in calls:
        for i, s in zip(idx, seqs):
            p = prompts[i]
            n = min(len(p), len(s))
            if tuple(s[:n]) != p[:n]:
                raise Violation("hook-prompt", f"{what}: step hook reports {s} for prompt {p}")
            if len(s) > max_len:
                raise Violation("hook-length", f"{what}: {len(s)} steps in the step hook, maximum is {max_len}")


def run(kind: str, cfg: Cfg, table: Table, prompts: list[Prefix], sources: list | None, fill: int = 1, sampler: Any = None) -> tuple:
    """Runs a real generator. Returns (hypotheses per prompt, the core, hook calls)."""
    min_len, max_len = cfg.limits(prompts, sources)
    core = Core(table, cfg.chunk, max_len)
    if sampler is not None:
        sampler.core = core
    model: Any = FakeLM(core, cfg.model_max) if sources is None else FakeS2S(core, cfg.model_max)
    kw: dict[str, Any] = dict(
        min_gen_len=cfg.min_gen, max_gen_len=cfg.max_gen, max_seq_len=cfg.max_seq, echo_prompt=cfg.echo,
        normalize_scores=cfg.norm, temperature=cfg.temp, unk_penalty=cfg.unk, len_penalty=cfg.lenp,
        prefill_chunk_size=cfg.chunk, step_processors=cfg.procs())
    gen: Any
    if kind == "beam":
        gen = (BeamSearchSequenceGenerator if sources is None else BeamSearchSeq2SeqGenerator)(model, INFO, beam_size=cfg.beam, **kw)
    else:
        gen = (SamplingSequenceGenerator if sources is None else SamplingSeq2SeqGenerator)(
            model, INFO, sampler, num_gens=cfg.num_gens, compute_scores=cfg.scores, **kw)
    calls: list = []

    def hook(prompt_indices: Tensor, seqs: Tensor, step_scores: Any, prefill: bool) -> None:
        calls.append((prompt_indices.tolist(), seqs.tolist(), None if step_scores is None else step_scores.tolist(), prefill))

    gen.register_step_hook(hook)
    p, pl = batch(prompts, 0 if fill == 1 else 1, fill)
    before = p.clone()
    if sources is None:
        out = gen(p, pl)
    else:
        s, sl = batch(sources, 0, PAD)
        out = gen(s, sl, p, pl)
    if not torch.equal(p, before):
        raise Violation("prompt-modified", "the prompts were modified")
    return out.hypotheses, core, calls


def compare(what: str, got: list, want: list) -> None:
    g = [(tuple(h.seq.tolist()), None if h.score is None else float(h.score), None if h.step_scores is None else h.step_scores.tolist()) for h in got]
    if [x[0] for x in g] != [x[0] for x in want]:
        raise Violation("hypotheses", f"{what}: generated {[x[0] for x in g]}, expected {[x[0] for x in want]}")
    for x, y in zip(g, want):
        if x[1] is None or not close(x[1], y[1]):
            raise Violation("score", f"{what}: score of {x[0]} is {x[1]}, expected {y[1]}")
        if x[2] is None or len(x[2]) != len(y[2]) or not all(map(close, x[2], y[2])):
            raise Violation("step-scores", f"{what}: step scores of {x[0]} are {x[2]}, expected {y[2]}")


SRC: list[Prefix] = [(A, B, EOS), (B, EOS), (A, A, A, EOS)]

PROMPTS: list[list[Prefix]] = [
    [(A,)],
    [(B, A, B)],
    [(A,), (B, EOS, A)],
    [(A, UNK, A), (B,)],
    [(B, B), (A, B)],
    [(B, A, A, A, B), (A, PAD, EOS), (EOS, A)],
]


def explore(rep: Report, name: str, body: Callable[[Ctl], None]) -> None:
    st = Explorer().run(body)
    rep.count("states", st.executions)
    rep.count("transitions", st.transitions)
    rep.count("evaluations", st.executions)
    rep.case(name)
    if st.executions > 1:
        rep.sample(f"{name}: {st.executions} executions")


def beam_case(rep: Report, cfg: Cfg, prompts: list[Prefix], sources: list | None, options: int, free: int, salt: int = 0, fill: int = 1) -> None:
    what = f"beam search{'' if sources is None else ' (seq2seq)'} {cfg}, prompts {prompts}"
    min_len, max_len = cfg.limits(prompts, sources)

    def body(ctl: Ctl) -> None:
        table = Table(ctl, options, free, salt, {1: 0, 2: 9 if rep.thorough else 5, 3: 6 if rep.thorough else 4}[options])
        try:
            hyps, core, calls = run("beam", cfg, table, prompts, sources, fill)
        except Violation:
            raise
        except Exception as ex:
            raise Violation("crash", f"{what}: {type(ex).__name__}: {ex}, model {table.memo}") from ex
        check_hooks(what, prompts, calls, max_len)
        if len(hyps) != len(prompts):
            raise Violation("num-outputs", f"{what}: {len(hyps)} outputs")
        for i, p in enumerate(prompts):
            try:
                want = ref_beam(cfg, table, None if sources is None else sources[i], p, min_len, max_len)
            except Ambiguous:
                rep.count("ambiguous")
                continue
            compare(f"{what}, prompt {i} with choices {ctl.choices}", hyps[i], want)

    explore(rep, what, body)


def beam_jobs(rep: Report) -> list[Callable]:
    jobs: list[Callable] = []

    def add(cases: list[tuple]) -> None:
        def job(r: Report) -> None:
            for c in cases:
                r.guard("beam", beam_case, r, *c)

        jobs.append(job)

    big = rep.thorough
    for prompts, beam in itertools.product(PROMPTS, (1, 2, 3)):
        for part in range(3):
            cases: list[tuple] = []
            for (lo, hi), cap, proc in itertools.product(
                [(1, 1), (1, 2), (2, 3), (3, 3)], [None, 1, 2], ["none", "ngram1", "ngram2", "ban", "ban-all", "ban-eos"]
            ):
                if [None, 1, 2].index(cap) != part:
                    continue
                longest = max(map(len, prompts))
                cfg = Cfg(beam=beam, min_gen=lo, max_gen=hi, proc=proc, max_seq=None if cap is None else longest + cap)
                k = 3 if (big or beam < 3) else 2
                cases.append((cfg, prompts, None, k, A))
                if cap is None and lo < 3:
                    cfg = Cfg(beam=beam, min_gen=lo, max_gen=(0.5, hi - 1), proc=proc)
                    cases.append((cfg, prompts, SRC[: len(prompts)], 2, A))
            add(cases)
    for prompts in PROMPTS:
        # Scores.
        cases = []
        for echo, norm, lenp, temp, unk, chunk, beam in itertools.product(
            (False, True), (False, True), (0.5, 1.0, 2.0), (1.0, 0.5), (0.0, 1.5, -1.5), (None, 1, 2), (1, 2)
        ):
            if not norm and lenp != 1.0:
                continue
            for fill in (PAD, 1):
                cfg = Cfg(beam=beam, echo=echo, norm=norm, lenp=lenp, temp=temp, unk=unk, chunk=chunk)
                for salt in range(3 if not big else 12):
                    cases.append((cfg, prompts, None, 1, A, salt, fill))
        add(cases)
    return jobs


# ----------------------------------------------------------------- sampling


class ChoiceSampler(Sampler):
    """Explores every outcome of sampling."""

    core: Core

    def __init__(self, ctl: Ctl, cfg: Cfg, table: Table, prompts: list[Prefix], min_len: int, per_prefix: bool) -> None:
        self.ctl, self.cfg, self.table, self.prompts, self.min_len = ctl, cfg, table, prompts, min_len
        self.drawn: list[tuple] = []
        self.memo: dict = {}

    def sample(self, probs: Tensor) -> Tensor:
        rows = self.core.rows
        if probs.shape != (len(rows), V):
            raise Violation("sampler-shape", f"sampler called with {tuple(probs.shape)} for {len(rows)} sequences")
        out = []
        for (src, prefix), row in zip(rows, probs.tolist()):
            prompt = any(p[: len(prefix)] == prefix and len(p) > len(prefix) for p in self.prompts)
            if prompt:
                # The outcome is ignored; take the most damaging one.
                out.append(EOS)
                continue
            want = [math.exp(x) for x in log_softmax(self.table.logits(src, prefix), self.cfg.temp)]
            for v in self.cfg.banned(prefix):
                want[v] = 0.0
            want[UNK] = max(0.0, want[UNK] - self.cfg.unk)
            want[PAD] = 0.0
            if len(prefix) < self.min_len - 1:
                want[EOS] = 0.0
            if not all(map(close, row, want)):
                raise Violation("sampling-probs", f"{self.cfg}: probabilities after {prefix} are {row}, expected {want}")
            live = [v for v in range(V) if want[v] > 0]
            if not live:
                raise NoCandidate()
            v = live[self.ctl.choose(len(live), f"sample{prefix}")]
            out.append(v)
        return torch.tensor(out)


class NoCandidate(Exception):
    pass


def sampling_case(rep: Report, cfg: Cfg, prompts: list[Prefix], sources: list | None, salt: int = 0) -> None:
    what = f"sampling{'' if sources is None else ' (seq2seq)'} {cfg}, prompts {prompts}"
    min_len, max_len = cfg.limits(prompts, sources)

    def body(ctl: Ctl) -> None:
        table = Table(None, 1, A, salt)
        sampler = ChoiceSampler(ctl, cfg, table, prompts, min_len, False)
        try:
            hyps, core, calls = run("sample", cfg, table, prompts, sources, sampler=sampler)
        except (Violation, NoCandidate) as ex:
            if isinstance(ex, NoCandidate):
                return
            raise
        except Exception as ex:
            raise Violation("crash", f"{what}: {type(ex).__name__}: {ex}") from ex
        check_hooks(what, prompts, calls, max_len)
        if len(hyps) != len(prompts):
            raise Violation("num-outputs", f"{what}: {len(hyps)} outputs")
        # The sequences as the steps drew them, from the step hook.
        drawn: dict[int, list[Prefix]] = {i: [] for i in range(len(prompts))}
        for idx, seqs, _, prefill in calls:
            if prefill:
                continue
            for i, s in zip(idx, seqs):
                if len(s) > len(prompts[i]) and s[-1] == EOS:
                    drawn[i].append(tuple(s))
        for i, p in enumerate(prompts):
            src = None if sources is None else sources[i]
            if len(hyps[i]) != cfg.num_gens or len(drawn[i]) != cfg.num_gens:
                raise Violation("num-gens", f"{what}: {len(hyps[i])} sequences generated for prompt {i}")
            want = []
            for seq in drawn[i]:
                st = [0.0]
                for n in range(1, len(seq)):
                    lp = log_softmax(table.logits(src, seq[:n]), cfg.temp)
                    if n >= len(p) and n < max_len - 1:
                        for v in cfg.banned(seq[:n]):
                            lp[v] = -INF
                        q = math.exp(lp[UNK]) - cfg.unk
                        lp[UNK] = math.log(q) if q > 0 else -INF
                        lp[PAD] = -INF
                        if n < min_len - 1:
                            lp[EOS] = -INF
                    st.append(lp[seq[n]])
                want.append((sum(st), seq, st))
                body_ = seq[len(p):]
                if EOS in body_[:-1] or PAD in body_:
                    raise Violation("sampled-special", f"{what}: {body_} contains EOS or PAD")
                if len(seq) < min_len and len(seq) != max_len:
                    raise Violation("min-len", f"{what}: {seq} is shorter than {min_len}")
            if not cfg.scores:
                start = 0 if cfg.echo else len(p)
                if sorted(tuple(h.seq.tolist()) for h in hyps[i]) != sorted(s[start:] for s in drawn[i]):
                    raise Violation("hypotheses", f"{what}: sequences differ from those drawn")
                if any(h.score is not None or h.step_scores is not None for h in hyps[i]):
                    raise Violation("scores-off", f"{what}: scores returned")
                continue
            try:
                w = finish(cfg, p, want)
            except Ambiguous:
                rep.count("ambiguous")
                continue
            # Step scores of sampling are probabilities.
            compare(f"{what} choices {ctl.choices}", hyps[i], [(s, x, [0.0 if (n == 0 and len(s) == len(s) and cfg.echo) else math.exp(t) for n, t in enumerate(st)]) for s, x, st in w])

    explore(rep, what, body)


def sampling_jobs(rep: Report) -> list[Callable]:
    jobs: list[Callable] = []

    def add(cases: list[tuple]) -> None:
        def job(r: Report) -> None:
            for c in cases:
                r.guard("sampling", sampling_case, r, *c)

        jobs.append(job)

    for prompts in PROMPTS:
        for gens in (1, 2):
            if gens == 2 and len(prompts) > 1:
                ranges = [(1, 2)]
            elif len(prompts) > 2:
                ranges = [(1, 2), (2, 2)]
            else:
                ranges = [(1, 1), (1, 2), (2, 3), (3, 3)]
            cases: list[tuple] = []
            for (lo, hi), proc, cap in itertools.product(ranges, ["none", "ngram1", "ngram2", "ban", "ban-eos"], [None, 1]):
                longest = max(map(len, prompts))
                # The number of free draws.
                if gens * sum(longest - len(p) + hi - 1 for p in prompts) > (7 if rep.thorough else 6):
                    continue
                cases.append((Cfg(num_gens=gens, min_gen=lo, max_gen=hi, proc=proc, max_seq=None if cap is None else longest + cap), prompts, None))
                if cap is None:
                    a_term = 0.25 if max(map(len, SRC[: len(prompts)])) < 4 else 0.0
                    cases.append((Cfg(num_gens=gens, min_gen=lo, max_gen=(a_term, hi), proc=proc), prompts, SRC[: len(prompts)]))
                if len(cases) >= 3:
                    add(cases)
                    cases = []
            add(cases)
        cases = []
        if len(prompts) < 3:
            for echo, norm, lenp, temp, unk, chunk, scores in itertools.product(
                (False, True), (False, True), (0.5, 1.0), (1.0, 0.5), (0.0, 0.1, 0.9, -0.1), (None, 1), (True, False)
            ):
                if not norm and lenp != 1.0:
                    continue
                cases.append((Cfg(echo=echo, norm=norm, lenp=lenp, temp=temp, unk=unk, chunk=chunk, scores=scores, max_gen=2), prompts, None))
            add(cases)
    return jobs


# ----------------------------------------------------- samplers, processors


def spec_top_p(w: list[float], p: float) -> set[int] | None:
    """Indices of the smallest set whose probability exceeds p (None if ties make it ambiguous)."""
    z = sum(w)
    order = sorted(range(len(w)), key=lambda i: -w[i])
    out, mass = [], 0.0
    for i in order:
        if mass > p:
            if w[i] == w[out[-1]]:
                return None
            break
        out.append(i)
        mass += w[i] / z
    return {i for i in out if w[i] > 0}


def spec_top_k(w: list[float], k: int) -> set[int] | None:
    order = sorted(range(len(w)), key=lambda i: -w[i])
    k = min(k, len(w))
    if k < len(w) and w[order[k - 1]] == w[order[k]] and w[order[k]] > 0:
        return None
    return {i for i in order[:k] if w[i] > 0}


def sampler_job(rep: Report) -> None:
    real = torch.multinomial
    n = 4
    grid = [w for w in itertools.product((0, 1, 2, 4, 8), repeat=n) if sum(w) > 0]
    samplers: list[tuple] = [("top-p", p, TopPSampler(p)) for p in (0.0, 0.3, 0.5, 0.7, 0.9, 1.0)]
    samplers += [("top-k", k, TopKSampler(k)) for k in (1, 2, 3, 4, 9)]
    for kind, arg, smp in samplers:
        spec = spec_top_p if kind == "top-p" else spec_top_k
        for scale in (1.0, 1 / 16, 3.0):
            rows, wants = [], []
            for w in grid:
                want = spec(list(w), arg)
                rep.count("states")
                if want is None:
                    continue
                rows.append([x / sum(w) * scale for x in w])
                wants.append((w, want))
            probs = torch.tensor(rows)
            before = probs.clone()
            # Explore every outcome that has a probability.
            got: list[dict[int, float]] = [{} for _ in rows]
            k_max = n
            for pick in range(k_max):
                used = []

                def multinomial(x: Tensor, num_samples: int, *a: Any, **kw: Any) -> Tensor:
                    if not bool((x >= 0).all()) or not bool(torch.isfinite(x).all()) or not bool((x.sum(-1) > 0).all()):
                        raise Violation(f"{kind}:weights", f"{kind} sampler with {arg} draws from invalid weights")
                    used.append(x.clone())
                    # Outcome: the `pick`-th possible one (or the last).
                    idx = []
                    for r in x.tolist():
                        live = [i for i, v in enumerate(r) if v > 0]
                        idx.append([live[min(pick, len(live) - 1)]])
                    return torch.tensor(idx)

                torch.multinomial = multinomial  # type: ignore[assignment]
                try:
                    out = smp.sample(probs)
                finally:
                    torch.multinomial = real
                if not torch.equal(probs, before):
                    raise Violation(f"{kind}:modified", f"{kind} sampler modifies its input")
                for r, v in enumerate(out.tolist()):
                    mass = 1.0
                    if used:
                        x = used[0][r]
                        live = [i for i, q in enumerate(x.tolist()) if q > 0]
                        mass = float(x[live[min(pick, len(live) - 1)]] / x.sum())
                    got[r][v] = mass
                rep.count("transitions", len(rows))
                rep.count("evaluations", len(rows))
            for (w, want), g in zip(wants, got):
                if kind == "top-k" and arg == 1:
                    if len(g) != 1 or w[next(iter(g))] != max(w):
                        raise Violation("top-k:greedy", f"top-1 of {w} draws {g}")
                    continue
                if set(g) != want:
                    raise Violation(f"{kind}:support", f"{kind} sampler with {arg} draws {sorted(g)} from {w}, expected {sorted(want)}")
                z = sum(w[i] for i in want)
                for i in want:
                    if abs(g[i] - w[i] / z) > 1e-5:
                        raise Violation(f"{kind}:weights", f"{kind} sampler with {arg} draws {i} from {w} with probability {g[i]}")
            rep.case((kind, arg, scale))


def processor_job(rep: Report) -> None:
    toks = (0, 1, 2)
    seqs_of = lambda lo, hi: [s for n in range(lo, hi + 1) for s in itertools.product(toks, repeat=n)]  # noqa: E731
    hist = {n: list(itertools.product(toks, repeat=n)) for n in range(1, 6)}

    def compare_mask(key: str, what: str, proc: Any, n: int, banned: Callable[[Prefix], set[int]]) -> None:
        seqs = torch.tensor(hist[n])
        for lprob in (False, True):
            base = torch.rand(len(seqs), V) + 0.1
            probs = base.clone()
            keep = seqs.clone()
            proc(seqs, probs, lprob=lprob)
            if not torch.equal(seqs, keep):
                raise Violation(f"{key}:modified", f"{what}: sequences modified")
            for i, h in enumerate(hist[n]):
                bad = banned(h)
                for v in range(V):
                    want = (-INF if lprob else 0.0) if v in bad else float(base[i, v])
                    if float(probs[i, v]) != want:
                        raise Violation(f"{key}:value", f"{what}: after {h}, token {v} is {float(probs[i, v])}, expected {want}")
                rep.count("states")
            rep.count("transitions", len(seqs))
            rep.count("evaluations")

    for g in (1, 2, 3, 4):
        for n in hist:
            compare_mask("ngram", f"no repeated {g}-grams", NGramRepeatBlockProcessor(g), n, lambda h: ngram_banned(g, h))
            rep.case(("ngram", g, n))
    lists = [[s] for s in seqs_of(1, 3)]
    pairs = list(itertools.combinations(seqs_of(1, 3 if rep.thorough else 2) + [(0, 0, 1), (1, 2, 0), (2, 2, 2)], 2))
    for bl in lists + [list(p) for p in pairs] + [[]]:
        proc = BannedSequenceProcessor([torch.tensor(b) for b in bl])
        for n in range(1, 5 if rep.thorough else 4):
            compare_mask("banned", f"banned {bl}", proc, n, lambda h: seq_banned(bl, h))
            rep.case(("banned", tuple(bl), n))
    for bad in (lambda: NGramRepeatBlockProcessor(0), lambda: BannedSequenceProcessor([torch.tensor([], dtype=torch.int64)])):
        try:
            bad()
        except ValueError:
            continue
        raise Violation("processor-args", "invalid processor accepted")


def args_job(rep: Report) -> None:
    """Contradictory limits are refused before anything is generated."""
    table = Table(None, 1, A)

    def expect(what: str, fn: Callable) -> None:
        rep.case(what)
        try:
            fn()
        except ValueError:
            return
        raise Violation("args", f"{what} accepted")

    for kind in ("beam", "sample"):
        for kw in (dict(min_gen=0), dict(max_gen=0), dict(min_gen=3, max_gen=2), dict(chunk=0), dict(max_seq=2)):
            smp = TopKSampler(1)
            expect(f"{kind} {kw}", lambda: run(kind, Cfg(**kw), table, [(A, B)], None, sampler=smp))
        for kw in (dict(max_gen=(0.0, 0)), dict(min_gen=3, max_gen=(1.0, -1)), dict(min_gen=0, max_gen=(1.0, 1)), dict(max_gen=(1.0, 1), max_seq=2)):
            smp = TopKSampler(1)
            expect(f"{kind} seq2seq {kw}", lambda: run(kind, Cfg(**kw), table, [(A, B)], SRC[:1], sampler=smp))


# -------------------------------------------------------------- real models


class RealTable:
    """The predictions of a real model, from full forward passes over each prefix on its own."""

    def __init__(self, model: Any) -> None:
        self.model = model
        self.memo: dict[Any, list[float]] = {}

    def logits(self, source: Any, prefix: Prefix) -> list[float]:
        key = (source, prefix)
        if key not in self.memo:
            p = torch.tensor([prefix])
            with torch.inference_mode():
                if source is None:
                    out = self.model(p, BatchLayout.of(p))
                else:
                    s = torch.tensor([source])
                    out = self.model(s, BatchLayout.of(s), p, BatchLayout.of(p))
            self.memo[key] = out[0, -1].tolist()
        return self.memo[key]


REAL_LM = ["llama", "llama4", "qwen3", "mistral-w2", "olmo2", "olmo3", "gemma3n"]


def real_job(rep: Report, name: str, seed: int) -> None:
    from checks import nn_common as nn

    nn.V = V
    s2s = name == "nllb"
    factory = nn.seq2seq_models()[name][0] if s2s else nn.lm_models()[name]
    model = nn.randomize(factory(), seed)
    table = RealTable(model)
    for prompts in PROMPTS:
        sources = SRC[: len(prompts)] if s2s else None
        for beam, chunk, lim in itertools.product((1, 2, 3), (None, 2), ((1, 3), (3, 5))):
            cfg = Cfg(beam=beam, chunk=chunk, min_gen=lim[0], max_gen=(0.0, lim[1]) if s2s else lim[1])
            what = f"beam search with {name} (seed {seed}) {cfg}, prompts {prompts}"
            min_len, max_len = cfg.limits(prompts, sources)
            kw: dict[str, Any] = dict(min_gen_len=cfg.min_gen, max_gen_len=cfg.max_gen, prefill_chunk_size=cfg.chunk)
            cls: Any = BeamSearchSeq2SeqGenerator if s2s else BeamSearchSequenceGenerator
            gen = cls(model, INFO, beam_size=beam, **kw)
            p, pl = batch(prompts, 0, PAD)
            if sources is None:
                out = gen(p, pl)
            else:
                s, sl = batch(sources, 0, PAD)
                out = gen(s, sl, p, pl)
            rep.count("states")
            rep.count("transitions", len(prompts))
            rep.count("evaluations")
            rep.case(what)
            for i, q in enumerate(prompts):
                try:
                    want = ref_beam(cfg, table, None if sources is None else sources[i], q, min_len, max_len)  # type: ignore[arg-type]
                except Ambiguous:
                    rep.count("ambiguous")
                    continue
                compare(f"{what}, prompt {i}", out.hypotheses[i], want)


def check(rep: Report) -> None:
    torch.set_num_threads(1)
    jobs: list[Callable] = []
    for fn in (sampler_job, processor_job, args_job):
        def job(r: Report, fn: Callable = fn) -> None:
            fn(r)
        jobs.append(job)
    for name in REAL_LM + ["nllb"]:
        for seed in range(8 if rep.thorough else 2):
            def real(r: Report, name: str = name, seed: int = seed) -> None:
                r.guard("real-model", real_job, r, name, seed)
            jobs.append(real)
    jobs = beam_jobs(rep) + sampling_jobs(rep) + jobs
    run_jobs(rep, jobs)
    rep.assumptions.append("models are deterministic functions of the (source and) prefix; logits without ties")
    rep.cov["rule"] = "one state per execution: a complete assignment of model predictions (or sampling outcomes) for a configuration"
