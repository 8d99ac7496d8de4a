"""Contracts on the functions of jsonclasses. Every module registers its
contracts with pvc.reg.contract; the same text runs symbolically (proof) and
natively (replay, bounded stand-in)."""
import importlib
import os


def load_all(only=None):
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(d)):
        if f.startswith('c') and f.endswith('.py') and f[1:2].isdigit():
            if only is None or f[1:3] in only:
                importlib.import_module('contracts.' + f[:-3])
