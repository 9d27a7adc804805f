#!/usr/bin/env python3
"""Describe what a launch file starts: nodes, remappings, parameters; stand-ins for launch and launch_ros.

usage: launch_main.py scenarios.ndjson out.ndjson workdir   (VF_REPO: the tree under test)
"""
import importlib.util
import json
import os
import sys
import types

import yaml

sys.dont_write_bytecode = True
REPO = os.environ.get('VF_REPO', '/repo')
ARGS = {}


def text(x):
    """the value of a substitution"""
    if x is None:
        return ''
    if isinstance(x, (list, tuple)):
        return ''.join(text(y) for y in x)
    if hasattr(x, 'value'):
        return x.value()
    return str(x)


class LaunchConfiguration:
    def __init__(self, name, *, default=None):
        self.name, self.default = name, default

    def value(self):
        if self.name in ARGS:
            return ARGS[self.name]
        if self.default is None:
            raise RuntimeError('launch configuration %s does not exist' % self.name)
        return text(self.default)


class DeclareLaunchArgument:
    def __init__(self, name, *, default_value=None, **kw):
        self.name, self.default = name, default_value

    def declare(self):
        if self.name not in ARGS:
            if self.default is None:
                raise RuntimeError('argument %s is required' % self.name)
            ARGS[self.name] = text(self.default)


class TextSubstitution:
    def __init__(self, *, text):
        self.t = text

    def value(self):
        return text(self.t)


class PathJoinSubstitution:
    def __init__(self, parts):
        self.parts = parts

    def value(self):
        return os.path.join(*[text(p) for p in self.parts])


class FindPackageShare:
    def __init__(self, package):
        self.package = package

    def value(self):
        return os.path.join(REPO, text(self.package))


class Node:
    def __init__(self, *, executable, package=None, name=None, namespace=None, remappings=None, parameters=None, **kw):
        self.executable, self.package, self.name, self.namespace = executable, package, name, namespace
        self.remappings, self.parameters = remappings or [], parameters or []


class LaunchDescription:
    def __init__(self, entities=()):
        self.entities = list(entities)

    def add_action(self, a):
        self.entities.append(a)


def install():
    def module(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m
    module('launch', LaunchDescription=LaunchDescription)
    module('launch.substitutions', LaunchConfiguration=LaunchConfiguration, TextSubstitution=TextSubstitution, PathJoinSubstitution=PathJoinSubstitution)
    module('launch.actions', DeclareLaunchArgument=DeclareLaunchArgument)
    module('launch_ros')
    module('launch_ros.actions', Node=Node)
    module('launch_ros.substitutions', FindPackageShare=FindPackageShare)
    module('ament_index_python')
    module('ament_index_python.packages', get_package_share_directory=lambda p: os.path.join(REPO, p))


def typed(k, v):
    t = 'bool' if isinstance(v, bool) else 'int' if isinstance(v, int) else 'double' if isinstance(v, float) else 'string'
    return {'name': k, 'type': t, 'value': text(v) if t != 'bool' else str(v).lower()}


def flat(d, prefix=''):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from flat(v, prefix + k + '.')
        else:
            yield prefix + k, v


def parameters(node):
    out = {}
    for p in node.parameters:
        if isinstance(p, dict):
            for k, v in flat(p):
                out[k] = typed(k, v)
        else:
            for key, sect in (yaml.safe_load(open(os.path.join(REPO, text(p)))) or {}).items():
                if key.strip('/') in ('**', text(node.name)):
                    for k, v in flat(sect.get('ros__parameters', {})):
                        out[k] = typed(k, v)
    return list(out.values())


def run(s):
    ARGS.clear()
    ARGS.update(s['args'])
    path = os.path.join(REPO, s['file'])
    spec = importlib.util.spec_from_file_location('launch_file', path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    ld = mod.generate_launch_description()
    nodes = []
    for e in ld.entities:
        if isinstance(e, DeclareLaunchArgument):
            e.declare()
    for e in ld.entities:
        if isinstance(e, Node):
            nodes.append({'package': text(e.package), 'executable': text(e.executable), 'name': text(e.name), 'namespace': text(e.namespace).strip('/'),
                          'remaps': [{'absolute': text(a).startswith('/'), 'from': text(a).lstrip('/'), 'to_absolute': text(b).startswith('/'), 'to': text(b).lstrip('/')} for a, b in e.remappings], 'params': parameters(e)})
    return [{'ev': 'Launch', 'nodes': nodes}]


def main():
    install()
    with open(sys.argv[2], 'w') as out:
        for line in open(sys.argv[1]):
            s = json.loads(line)
            try:
                ev = run(s)
            except Exception as x:      # noqa
                ev = [{'ev': 'Raised', 'what': repr(x)[:300]}]
            out.write(json.dumps({'id': s['id'], 'params': {'file': s['file'], 'args': [{'name': k, 'value': v} for k, v in s['args'].items()]}, 'events': ev}) + '\n')


main()
