"""A second device on a machine that has none.

Tensors "on the device" are wrappers (labelled `meta`, with the values kept in an ordinary tensor) and every
operation torch dispatches passes `execute`, which carries it out on the values and enforces the rule of real
accelerators: tensors of different devices do not mix, except for copies, CPU scalars and CPU indices. What is
computed there is bit for bit what the CPU computes, so that the results can be compared exactly."""
import collections

import torch
from torch.overrides import TorchFunctionMode
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_flatten, tree_map

NAME = "meta"
EVENTS = collections.Counter()


class Mixed(RuntimeError):
    pass


class Remote(torch.Tensor):
    """a tensor on the device"""

    @staticmethod
    def __new__(cls, values):
        return torch.Tensor._make_wrapper_subclass(
            cls, values.size(), strides=values.stride(), storage_offset=values.storage_offset(), dtype=values.dtype,
            device=torch.device(NAME), requires_grad=False)

    def __init__(self, values):
        self.values_ = values

    __torch_function__ = torch._C._disabled_torch_function_impl

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return execute(func, args, kwargs or {})


COPIES = {"aten::copy_", "aten::_to_copy", "aten::_copy_from", "aten::set_"}
INDEXING = {"aten::index", "aten::index_put", "aten::index_put_", "aten::_index_put_impl_", "aten::_unsafe_index"}


def is_remote(t):
    return isinstance(t, Remote)


def execute(func, args, kwargs):
    tensors = [t for t in tree_flatten((args, kwargs))[0] if isinstance(t, torch.Tensor)]
    remote = [is_remote(t) for t in tensors]
    name = func._schema.name
    if any(remote):
        EVENTS["operations on the device"] += 1
        if not all(remote):
            if name in COPIES:
                EVENTS["copies between devices"] += 1
            else:
                indices = {id(t) for t in args[1] if t is not None} if name in INDEXING else set()
                for t, r in zip(tensors, remote):
                    if not r and t.ndim and not (id(t) in indices and is_remote(args[0])):
                        where = [f"{'device' if q else 'cpu'}{tuple(u.shape)}" for u, q in zip(tensors, remote)]
                        raise Mixed(f"expected all tensors of {name} on the same device, but got {', '.join(where)}")
    there = any(remote) and not (name in ("aten::copy_",) and not remote[0])
    if kwargs.get("device") is not None:
        there = torch.device(kwargs["device"]).type == NAME
        kwargs = dict(kwargs, device=torch.device("cpu"))
    a, k = tree_map(lambda t: t.values_ if is_remote(t) else t, (args, kwargs))
    out = func(*a, **k)

    def wrap(o):
        for t in tensors:  # operations in place return their argument
            if is_remote(t) and t.values_ is o:
                return t
        return Remote(o) if isinstance(o, torch.Tensor) else o

    return tree_map(wrap, out) if there else out


class _Operations(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return execute(func, args, kwargs or {})


class _Literals(TorchFunctionMode):
    """tensors made from python numbers, which torch builds out of sight of the dispatcher"""

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        dev = kwargs.get("device")
        there = dev is not None and torch.device(dev).type == NAME
        if func in (torch.tensor, torch.as_tensor, torch.asarray, torch.Tensor.new_tensor):
            at = int(func is torch.Tensor.new_tensor)
            if len(args) > at and isinstance(args[at], (list, tuple)):  # numbers read from the device
                number = lambda t: t.detach().values_.item() if is_remote(t) else t
                args = (*args[:at], tree_map(number, args[at]), *args[at + 1:])
        if func in (torch.tensor, torch.as_tensor, torch.asarray) and there:
            if args and isinstance(args[0], torch.Tensor):
                return args[0].to(**{k: v for k, v in kwargs.items() if k in ("dtype", "device") and v is not None})
            return func(*args, **{**kwargs, "device": "cpu"}).to(NAME)
        if func is torch.Tensor.new_tensor and (there or (dev is None and is_remote(args[0]))):
            grad = kwargs.pop("requires_grad", False)
            kwargs.pop("device", None)
            dtype = kwargs.pop("dtype", None) or args[0].dtype
            rest = [torch.tensor(v, dtype=dtype, device="cpu") for v in [*args[1:2], *kwargs.values()]]
            return rest[0].to(NAME).requires_grad_(grad)
        if func is torch.Tensor.tolist and is_remote(args[0]):
            return args[0].detach().values_.tolist()
        if func in (torch.Tensor.__getitem__, torch.Tensor.__setitem__) and is_remote(args[0]):
            index = args[1] if isinstance(args[1], tuple) else (args[1],)
            if any(isinstance(i, (list, range)) for i in index):  # sequences of python numbers, also literals
                index = tuple(torch.tensor(i) if isinstance(i, (list, range)) and all(isinstance(v, (bool, int)) for v in i) else i for i in index)
                return func(args[0], index, *args[2:], **kwargs)
        if func is torch.Tensor.numpy and is_remote(args[0]):
            raise Mixed("numpy() of a tensor on the device")
        return func(*args, **kwargs)


class Device:
    """context in which the device exists"""

    def __enter__(self):
        self.modes = [_Operations(), _Literals()]
        for m in self.modes:
            m.__enter__()
        return self

    def __exit__(self, *exc):
        for m in reversed(self.modes):
            m.__exit__(*exc)


def send(obj):
    return tree_map(lambda t: t.to(NAME) if isinstance(t, torch.Tensor) else t, obj)


def fetch(obj):
    """the values, on the CPU"""
    return tree_map(lambda t: (t.detach().values_ if is_remote(t.detach()) else t.detach()) if isinstance(t, torch.Tensor) else t, obj)
