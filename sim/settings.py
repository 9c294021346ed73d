"""Ambient settings entered and left around calls."""
import gc, random, warnings
import numpy as np
import torch
from . import env


class Setting:
    """one ambient setting, entered and left around a call"""

    def __init__(self, name, arg):
        self.name, self.arg = name, arg
        self.undo = []

    def __enter__(self):
        n, a = self.name, self.arg
        u = self.undo.append
        if n == "dtype":
            old = torch.get_default_dtype()
            torch.set_default_dtype([torch.float64, torch.float32, torch.bfloat16, torch.float16][a % 4])
            u(lambda: torch.set_default_dtype(old))
        elif n == "threads":
            old = torch.get_num_threads()
            torch.set_num_threads(1 + a % 3)
            u(lambda: torch.set_num_threads(old))
        elif n == "seed":
            torch.manual_seed(a), np.random.seed(a), random.seed(a)
        elif n == "nograd":
            c = torch.no_grad()
            c.__enter__()
            u(lambda: c.__exit__(None, None, None))
        elif n == "inference":
            c = torch.inference_mode()
            c.__enter__()
            u(lambda: c.__exit__(None, None, None))
        elif n == "device":
            c = torch.device("meta")
            c.__enter__()
            u(lambda: c.__exit__(None, None, None))
        elif n == "deterministic":
            torch.use_deterministic_algorithms(True)
            u(lambda: torch.use_deterministic_algorithms(False))
        elif n == "anomaly":
            c = torch.autograd.set_detect_anomaly(True, check_nan=False)
            c.__enter__()
            u(lambda: c.__exit__(None, None, None))
        elif n == "denormal":
            torch.set_flush_denormal(True)
            u(lambda: torch.set_flush_denormal(False))
        elif n == "mkldnn":
            old = torch.backends.mkldnn.enabled
            torch._C._set_mkldnn_enabled(False)
            u(lambda: torch._C._set_mkldnn_enabled(old))
        elif n == "matmul":
            torch.set_float32_matmul_precision("medium")
            u(lambda: torch.set_float32_matmul_precision("highest"))
        elif n == "warnerror":
            c = warnings.catch_warnings()
            c.__enter__()
            warnings.simplefilter("error")
            u(lambda: c.__exit__(None, None, None))
        elif n == "fill":
            env.RT.fill(1 + a % 5, a)
            u(lambda: env.RT.fill(1, 1))
        elif n == "omp":
            env.RT.omp(1 + a % 4, a % 4, a)
            u(lambda: env.RT.omp(1))
        elif n == "gc":
            gc.disable()
            u(gc.enable)
        return self

    def __exit__(self, *e):
        for f in reversed(self.undo):
            f()
        self.undo = []


SETTINGS = ["dtype", "threads", "seed", "nograd", "inference", "device", "deterministic", "anomaly", "denormal", "mkldnn", "matmul", "fill",
            "omp", "fill", "warnerror"]
NOGRAD = {"nograd", "inference"}


class Settings:
    """several at once"""

    def __init__(self, sets):
        self.s = [Setting(*s) for s in sets]
        self.on = []

    def __enter__(self):
        try:
            for s in self.s:
                s.__enter__()
                self.on.append(s)
        except BaseException:
            self.__exit__()
            raise
        return self

    def __exit__(self, *e):
        for s in reversed(self.on):
            s.__exit__()
        self.on = []
