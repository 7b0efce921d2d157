"""Shared parts of the checkpoint checks (C01, C02)."""
import io
import os

import torch


class Net(torch.nn.Module):
    """Smallest model with the attributes the checkpoint functions use."""

    def __init__(self, name, directory, value=0.0):
        super().__init__()
        self.model_name = name
        self.model_directory = directory
        self.w = torch.nn.Parameter(torch.tensor([float(value)]))

    def set(self, value):
        with torch.no_grad():
            self.w.fill_(float(value))

    def get(self):
        return float(self.w.detach())


def optim(net, value):
    return torch.optim.SGD(net.parameters(), lr=float(value))


def state_bytes(value):
    b = io.BytesIO()
    torch.save({'w': torch.tensor([float(value)])}, b)
    return b.getvalue()


def decode(path):
    """Value stored in a checkpoint file, or None if it cannot be read."""
    try:
        obj = torch.load(path, map_location='cpu')
        if 'w' in obj:
            return ('model', round(float(obj['w']), 6))
        return ('optim', round(float(obj['state']['param_groups'][0]['lr']),
                               6), obj['epoch'])
    except Exception:
        with open(path, 'rb') as f:
            return ('raw', f.read())


def fname(name, kind, epoch):
    """Documented file name of a state."""
    if kind == 'init':
        return f'{name}-init.pt'
    s = name
    if epoch is not None:
        s += f'-{epoch}'
    if kind == 'best':
        s += '-best'
    return s + '.pt'
