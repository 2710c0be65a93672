"""Taking part in a distributed calculation: environment, devices, process group, printing; lifetime of the process group."""
import builtins
import contextlib
import gc
import io
import os
import sys
import torch
import torch.distributed as dist
from tqdm import tqdm
from ..harness import Harness
from . import util


class Group:
    """stands in for torch.distributed: records what is set up and taken down"""

    def __init__(self, up=None):
        self.state, self.calls = up, []

    def init_process_group(self, backend=None, rank=-1, world_size=-1, **k):
        if self.state is not None:
            raise ValueError("trying to initialize the default process group twice!")
        self.calls.append((backend, rank, world_size))
        self.state = (rank, world_size)

    def destroy_process_group(self, group=None):
        assert self.state is not None
        self.state = None
        self.calls.append("down")

    def get(self, i):
        def f(group=None):
            if self.state is None:
                raise ValueError("Default process group has not been initialized, please make sure to call init_process_group.")
            return self.state[i]
        return f

    def patches(self):
        return [(dist, "is_initialized", lambda: self.state is not None), (dist, "is_available", lambda: True),
                (dist, "init_process_group", self.init_process_group), (dist, "destroy_process_group", self.destroy_process_group),
                (dist, "get_rank", self.get(0)), (dist, "get_world_size", self.get(1)),
                (dist, "broadcast", lambda t, src=0, *a, **k: None), (dist, "barrier", lambda *a, **k: None)]


@contextlib.contextmanager
def environment(**kw):
    """environment variables (None: absent); printing and exit handlers are restored"""
    import atexit
    names = ("RANK", "WORLD_SIZE")
    old = {n: os.environ.get(n) for n in names}
    pr, wr, so = builtins.print, tqdm.__dict__["write"], sys.stdout
    screen = io.StringIO()
    try:
        sys.stdout = screen
        tqdm.write = staticmethod(lambda s, *a, **k: sys.stdout.write(s + "\n"))
        for n in names:
            os.environ.pop(n, None)
            if kw.get(n) is not None:
                os.environ[n] = kw[n]
        with util.patched((atexit, "register", lambda f, *a, **k: f)):
            yield screen
    finally:
        builtins.print = pr
        tqdm.write = wr
        sys.stdout = so
        for n in names:
            os.environ.pop(n, None)
            if old[n] is not None:
                os.environ[n] = old[n]


def written(screen):
    """does output through print and tqdm.write reach the screen at the moment"""
    out = []
    for f in (builtins.print, tqdm.write):
        screen.seek(0)
        screen.truncate()
        f("text")
        out.append(screen.getvalue() == "text\n")
    return tuple(out)


def setup(w):
    """every environment a process can find itself in"""
    from acetn.utils.distributed import setup_distributed
    ws = w.choose("world_size", (None, 1, 2, 3, 8))
    rank = w.choose("rank", (None,) + tuple(range(min(ws or 2, 4))))
    kind = w.choose("device", ("cpu", "cuda", "meta"))
    cuda = w.flip("cuda available") if kind != "cuda" else True
    up = w.flip("group exists") if ws is not None and ws > 1 and rank is not None else False
    ncpu, ngpu = w.integer("cpus", 1, 16), w.integer("gpus", 1, 16)
    device = torch.device(kind)
    g = Group((rank, ws) if up else None)
    chosen, raised, out = [], None, None
    with environment(RANK=None if rank is None else str(rank), WORLD_SIZE=None if ws is None else str(ws)) as screen, \
            util.patched(*g.patches(), (os, "cpu_count", lambda: ncpu), (torch.cuda, "device_count", lambda: ngpu),
                         (torch.cuda, "is_available", lambda: cuda), (torch.cuda, "set_device", lambda d: chosen.append(d))):
        try:
            out = setup_distributed(device)
        except (RuntimeError, NotImplementedError) as e:
            raised = type(e)
        talk = written(screen)
    together = rank is not None and ws is not None and ws > 1
    if not together:
        w.require(raised is None and tuple(out) == (0, 1, device, False), "a process on its own: rank 0 of 1 on the configured device")
        w.require(not g.calls and not chosen and talk == (True, True), "a process on its own sets up nothing")
        return
    if kind == "meta":
        w.require(raised is NotImplementedError and not g.calls, "other devices are rejected")
        return
    if (ncpu if kind == "cpu" else ngpu) < ws:
        w.require(raised is RuntimeError and not g.calls, "more workers than devices are rejected")
        return
    w.require(raised is None, "as many workers as devices are accepted")
    w.require(tuple(out[:2]) == (rank, ws) and out[3] is True, "rank and number of workers are those of the environment")
    w.require(g.state == (rank, ws), "the process group exists")
    want = "nccl" if cuda else "gloo"
    w.require(g.calls == ([] if up else [(want, rank, ws)]), "the process group is set up once, with the backend of the machine")
    w.require(talk == (rank == 0, rank == 0), "the first worker prints, the others do not")
    if kind == "cpu":
        w.require(torch.device(out[2]) == device and not chosen, "the cpu stays the device")
    elif not up:
        w.require(chosen and all(torch.device("cuda", c) if isinstance(c, int) else torch.device(c) == torch.device("cuda", rank) for c in chosen),
                  "every worker selects its own device")
        w.require((torch.device("cuda", out[2]) if isinstance(out[2], int) else torch.device(out[2])) == torch.device("cuda", rank), "every worker uses its own device")


def lifetime(w, steps):
    """networks come and go: those alive can always communicate"""
    from acetn.ipeps import Ipeps
    from acetn.utils.logger import log_initial_message
    ws = w.choose("world_size", (1, 2, 4))
    rank = w.choose("rank", tuple(range(ws))[:2])
    n = w.integer("cpus", 1, 16)
    g = Group()
    cfg = util.cfg(2, 2, 2, 1, 2, "float64")
    nets = []
    with environment(RANK=str(rank), WORLD_SIZE=str(ws)), util.patched(*g.patches(), (os, "cpu_count", lambda: n), (torch.cuda, "is_available", lambda: False),
                                                                      *util.patch_everywhere("log_initial_message", log_initial_message, lambda *a, **k: None)):
        for i in range(steps):
            op = w.choose(f"op{i}", ("new",) if not nets else ("new", "copy", "replace", "drop first", "drop last"))
            try:
                with w.concrete():
                    if op == "new":
                        nets.append(Ipeps(cfg))
                    elif op == "copy":
                        nets.append(Ipeps(cfg, nets[0]))
                    elif op == "replace":
                        nets[-1] = Ipeps(cfg, nets[-1])
                    else:
                        nets.pop(0 if op == "drop first" else -1)
                        gc.collect(0)
            except RuntimeError:
                w.require(n < ws and ws > 1 and g.state is None, "networks are rejected when there are too few devices only")
                return
            for x in nets:
                w.require((x.rank, x.world_size, x.is_distributed) == (rank if ws > 1 else 0, ws, ws > 1), "rank and number of workers")
            if nets:
                w.require(g.state == ((rank, ws) if ws > 1 else None), "the process group exists while a network uses it")
        nets.clear()


HARNESSES = [Harness("setup", setup, [dict()], None, "up to 8 workers, ranks up to 3, symbolic numbers of devices up to 16; cpu, cuda and other device types", max_paths=20000),
             Harness("lifetime", lifetime, [dict(steps=3)], [dict(steps=4)], "histories of up to 3 (4) creations, copies, replacements and deletions, symbolic number of devices", max_paths=20000)]
ASSUMPTIONS = ["the process group behaves as documented by torch.distributed (stand-in)"]
OUTSIDE = "failures of workers; NCCL itself"
