"""Instances over the dispatcher of probes/dispatch.py."""
from .framework import Scenario

VERSIONS = ('soap11', 'soap12')


def D(f, v, *args, rule=None, strict=True, own=False, svc=False, thorough=False, busy=False):
    return Scenario('dispatch', f, (v,) + args, rule=rule, setup=('build_busy' if busy else 'build', v, strict, own, svc), thorough=thorough,
                    label=f + repr((v,) + args) + ('' if strict else ' lenient') + (' later' if busy else ''))
