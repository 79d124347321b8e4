"""A second, virtual device next to the CPU: real arithmetic, but tensors may not be mixed across the two.

A tensor on the virtual device is a wrapper around CPU data that reports device
`meta`, so device-following code (`x.device`, `device=`, `.to(...)`,
`new_zeros`, `zeros_like`, `Module.to`) places what it makes there; any operator
that receives full tensors from both sides is refused, as an accelerator would.
"""
import contextlib

import torch
from torch.overrides import TorchFunctionMode
from torch.utils._python_dispatch import TorchDispatchMode, return_and_correct_aliasing
from torch.utils._pytree import tree_flatten, tree_map

DEV = torch.device("meta")
CPU = torch.device("cpu")


class DeviceMixed(RuntimeError):
    pass


class Unsupported(RuntimeError):
    """The emulator lost track of a tensor; says nothing about the code."""


class OnDevice(torch.Tensor):
    @staticmethod
    def __new__(cls, elem):
        r = torch.Tensor._make_wrapper_subclass(
            cls, elem.size(), strides=elem.stride(), storage_offset=elem.storage_offset(), dtype=elem.dtype,
            layout=elem.layout, device=DEV, requires_grad=elem.requires_grad)
        r.elem = elem.detach()
        return r

    def __repr__(self):
        return f"OnDevice({self.elem})"

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


# reads of one tensor into another are the only way across
ACROSS = {"aten::copy_", "aten::_to_copy", "aten::_copy_from", "aten::set_"}
INDEXED = {"aten::index", "aten::index_put_", "aten::index_put", "aten::_index_put_impl_", "aten::_unsafe_index"}


def dispatch(func, args, kwargs):
    flat = [x for x in tree_flatten((args, kwargs))[0] if isinstance(x, torch.Tensor)]
    here = [x for x in flat if not isinstance(x, OnDevice)]
    there = [x for x in flat if isinstance(x, OnDevice)]
    if func is torch.ops.aten._conj.default:
        func = torch.ops.aten.conj_physical.default  # no lazy conjugation behind the wrapper
    elif func is torch.ops.aten._neg_view.default:
        func = torch.ops.aten.neg.default
    name = func._schema.name
    if any(x.device == DEV for x in here):
        raise Unsupported(f"{name} received a device tensor that the emulator did not make")
    target = kwargs.get("device")
    if here and there and name not in ACROSS:
        bad = [x for x in here if x.dim()]
        if name in INDEXED and isinstance(args[0], OnDevice):
            idx = [x for x in args[1] if x is not None]
            bad = [x for x in bad if not any(x is i for i in idx)]  # host indices into a device tensor are accepted
        if not isinstance(args[0] if args else None, OnDevice) and name in INDEXED:
            bad = here
        if bad:
            raise DeviceMixed(f"{name} received tensors on two devices: "
                              f"{[(x.device.type, tuple(x.shape)) for x in flat]}")
    un = lambda x: x.elem if isinstance(x, OnDevice) else x  # noqa: E731
    kw = dict(kwargs)
    if target is not None and torch.device(target) == DEV:
        kw["device"] = CPU
    out = func(*tree_map(un, args), **tree_map(un, kw))
    if target is not None:
        on = torch.device(target) == DEV
    elif name in ACROSS and args:
        on = isinstance(args[0], OnDevice)
    else:
        on = bool(there)
    if not on:
        return out
    out = tree_map(lambda x: OnDevice(x) if isinstance(x, torch.Tensor) else x, out)
    if there and target is None:
        return return_and_correct_aliasing(func, args, kwargs, out)
    return out


class _Ops(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


TO_HOST = (torch.Tensor.__float__, torch.Tensor.__int__, torch.Tensor.__bool__, torch.Tensor.__index__,
           torch.Tensor.__complex__, torch.Tensor.item, torch.Tensor.tolist)


class _Api(TorchFunctionMode):
    """Constructors that fill their result before the dispatcher is asked, and host exports."""

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if func in TO_HOST and isinstance(args[0], OnDevice):
            return func(args[0].elem, *args[1:], **kwargs)
        if func in (torch.tensor, torch.as_tensor) and args and isinstance(args[0], list | tuple):
            args = (tree_map(lambda x: x.elem.item() if isinstance(x, OnDevice) and not x.dim() else x, args[0]), *args[1:])
        if func in (torch.tensor, torch.as_tensor, torch.asarray) and kwargs.get("device") is not None:
            if isinstance(args[0], OnDevice):
                return args[0].to(**kwargs)
            kw = {k: v for k, v in kwargs.items() if k != "device"}
            return func(*args, **kw).to(kwargs["device"])
        if func is torch.Tensor.new_tensor:
            return torch.tensor(*args[1:], **{"dtype": args[0].dtype, "device": args[0].device, **kwargs})
        if func is torch.Tensor.numpy and isinstance(args[0], OnDevice):
            raise TypeError("can't convert a device tensor to numpy, copy it to host memory first")
        if func is torch.Tensor.__array__ and isinstance(args[0], OnDevice):
            raise TypeError("can't convert a device tensor to numpy, copy it to host memory first")
        return func(*args, **kwargs)


@contextlib.contextmanager
def two_devices():
    with _Ops(), _Api():
        yield


def on_device(x):
    if isinstance(x, OnDevice):
        return True
    if x.device == DEV:
        raise Unsupported("a device tensor that the emulator did not make")
    return False


def host(x):
    """The values of a tensor on either device."""
    x = x.detach()
    return x.elem.clone() if isinstance(x, OnDevice) else x.clone()
