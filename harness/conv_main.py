#!/usr/bin/env python3-vt
"""Drive the point type converter with stand-ins for rclpy and sensor_msgs; record what it publishes.

usage: conv_main.py scenarios.ndjson out.ndjson workdir   (VF_REPO: the tree under test)
Bytes are packed and unpacked here with numpy, independently of the code's own format strings.
"""
import copy
import json
import os
import signal
import sys
import types

import numpy as np

sys.dont_write_bytecode = True
REPO = os.environ.get('VF_REPO', '/repo')
CODES = [None, 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'f4', 'f8']
LOG = []


class Enum:
    def __init__(self, name):
        self.name = name


class Policy(type):
    def __getattr__(cls, k):
        return k.lower()


class QoSProfile:
    def __init__(self, **kw):
        if not kw:
            raise TypeError('QoSProfile needs history or depth')
        self.rel = kw.get('reliability', 'reliable')
        self.dur = kw.get('durability', 'volatile')
        self.hist = kw.get('history', 'keep_last')
        self.depth = kw.get('depth', 10)


def qos(q):
    if isinstance(q, int):
        q = QoSProfile(depth=q)
    return {'rel': q.rel, 'dur': q.dur, 'hist': q.hist, 'depth': int(q.depth)}


class Pub:
    def __init__(self, typ, topic, q):
        self.typ, self.topic, self.qos = typ, topic.lstrip('/'), dict(qos(q), absolute=topic.startswith('/'))
        self.sent = []

    def publish(self, m):
        if not isinstance(m, self.typ):
            raise TypeError('wrong message type')
        self.sent.append(copy.deepcopy(m))


class Logger:
    def __getattr__(self, k):
        return lambda *a, **kw: None


class Node:
    def __init__(self, name, **kw):
        self.node_name = name
        self.subs, self.pubs = [], []
        LOG.append('node')

    def create_subscription(self, typ, topic, cb, q, **kw):
        s = types.SimpleNamespace(typ=typ, topic=topic.lstrip('/'), cb=cb, qos=dict(qos(q), absolute=topic.startswith('/')))
        self.subs.append(s)
        return s

    def create_publisher(self, typ, topic, q, **kw):
        p = Pub(typ, topic, q)
        self.pubs.append(p)
        return p

    def get_logger(self):
        return Logger()

    def destroy_node(self):
        LOG.append('destroy')


class Header:
    def __init__(self, sec=0, nanosec=0, frame_id=''):
        self.stamp = types.SimpleNamespace(sec=sec, nanosec=nanosec)
        self.frame_id = frame_id


class PointField:
    INT8, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 = range(1, 9)

    def __init__(self, name='', offset=0, datatype=0, count=0):
        self.name, self.offset, self.datatype, self.count = name, offset, datatype, count


class PointCloud2:
    def __init__(self, **kw):
        self.header = Header()
        self.height = self.width = 0
        self.fields = []
        self.is_bigendian = False
        self.point_step = self.row_step = 0
        self.data = b''
        self.is_dense = False
        for k, v in kw.items():
            setattr(self, k, v)


def install():
    rclpy = types.ModuleType('rclpy')
    rclpy.init = lambda *a, **k: LOG.append('init')
    rclpy.shutdown = lambda *a, **k: LOG.append('shutdown')
    rclpy.ok = lambda *a, **k: True
    rclpy.spin = lambda n, *a, **k: LOG.append('spin' if isinstance(n, Node) and n.subs else 'spin nothing')
    node = types.ModuleType('rclpy.node')
    node.Node = Node
    q = types.ModuleType('rclpy.qos')
    q.QoSProfile = QoSProfile
    for k in ('History', 'Reliability', 'Durability'):
        setattr(q, 'QoS%sPolicy' % k, Policy('P', (), {}))
        setattr(q, '%sPolicy' % k, Policy('P', (), {}))
    q.qos_profile_sensor_data = QoSProfile(reliability='best_effort', depth=5)
    rclpy.node, rclpy.qos = node, q
    sm, msg, sh, shm = (types.ModuleType(n) for n in ('sensor_msgs', 'sensor_msgs.msg', 'std_msgs', 'std_msgs.msg'))
    msg.PointCloud2, msg.PointField = PointCloud2, PointField
    shm.Header = Header
    sm.msg, sh.msg = msg, shm
    for m in (rclpy, node, q, sm, msg, sh, shm):
        sys.modules[m.__name__] = m
    sys.path.insert(0, os.path.join(REPO, 'point_type_converter'))


def val(s, code):
    return float.fromhex(s) if code[0] == 'f' and 'x' in s else float(s) if code[0] == 'f' else int(s)


def cloud(c):
    """the message carrying these points in this layout; bytes of no field are noise"""
    e = '>' if c['big'] else '<'
    n = len(c['points'])
    raw = np.random.RandomState(c['noise']).randint(0, 256, n * c['step']).astype(np.uint8)
    if n:
        dt = np.dtype({'names': ['f%d' % i for i in range(len(c['fields']))],
                       'formats': [e + CODES[f[2]] for f in c['fields']],
                       'offsets': [f[1] for f in c['fields']], 'itemsize': c['step']})
        v = raw.view(dt)
        for i, f in enumerate(c['fields']):
            for k in range(n):
                v[k]['f%d' % i] = val(c['points'][k][i], CODES[f[2]])
    m = PointCloud2()
    h = c['header']
    m.header = Header(h['sec'], h['nsec'], h['frame'])
    m.height = c['height']
    m.width = n // c['height']
    m.fields = [PointField(name=f[0], offset=f[1], datatype=f[2], count=f[3]) for f in c['fields']]
    m.is_bigendian = c['big']
    m.point_step = c['step']
    m.row_step = c['step'] * m.width
    import array
    m.data = array.array('B', raw.tobytes())
    m.is_dense = True
    return m


OUT = np.dtype({'names': ['x', 'y', 'z', 'intensity', 'ring'], 'formats': ['<f4', '<f4', '<f4', '<f4', '<u2'],
                'offsets': [0, 4, 8, 16, 20], 'itemsize': 32})


def num(x):
    x = float(x)
    return 'nan' if x != x else 'inf' if x == float('inf') else '-inf' if x == float('-inf') else x.hex()


def shown(m):
    data = bytes(bytearray(m.data))
    rows = []
    if len(data) % 32 == 0:
        rows = [[num(r['x']), num(r['y']), num(r['z']), num(r['intensity']), int(r['ring'])] for r in np.frombuffer(data, OUT)]
    return {'header': {'sec': m.header.stamp.sec, 'nsec': m.header.stamp.nanosec, 'frame': m.header.frame_id},
            'height': int(m.height), 'width': int(m.width), 'step': int(m.point_step), 'row': int(m.row_step), 'bytes': len(data),
            'big': bool(m.is_bigendian), 'fields': [{'name': f.name, 'offset': int(f.offset), 'datatype': int(f.datatype), 'count': int(f.count)} for f in m.fields],
            'rows': rows}


def run(s):
    ev = []
    mod = __import__('point_type_converter.convert', fromlist=['x'])
    if s.get('main'):
        LOG.clear()
        mod.main()
        return [{'ev': 'Main', 'calls': list(LOG)}]
    node = mod.PointTypeConverter()
    ev.append({'ev': 'Start', 'subs': [dict(p.qos, topic=p.topic, type=p.typ.__name__) for p in node.subs],
               'pubs': [dict(p.qos, topic=p.topic, type=p.typ.__name__) for p in node.pubs]})
    for c in s['clouds']:
        m = cloud(c)
        for _ in range(c.get('times', 1)):
            for p in node.pubs:
                p.sent.clear()
            e = {'ev': 'Cloud', 'cloud': {k: c[k] for k in ('header', 'fields', 'points')}}
            try:
                for sub in node.subs:
                    sub.cb(m)
                e['out'] = [{'topic': p.topic, 'msg': shown(x)} for p in node.pubs for x in p.sent]
            except TimeoutError:
                raise
            except Exception as x:      # noqa
                e['ev'], e['what'] = 'Raised', repr(x)[:300]
            ev.append(e)
    return ev


def main():
    install()

    def late(*a):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, late)
    with open(sys.argv[2], 'w') as out:
        for line in open(sys.argv[1]):
            s = json.loads(line)
            signal.alarm(int(os.environ.get('VF_LIMIT', '20')))
            try:
                ev = run(s)
            except TimeoutError:
                ev = [{'ev': 'Raised', 'what': 'timeout'}]
            except (Exception, SystemExit) as x:      # noqa
                ev = [{'ev': 'Raised', 'what': repr(x)[:300]}]
            signal.alarm(0)
            out.write(json.dumps({'id': s['id'], 'params': {'dummy': 0}, 'events': ev}) + '\n')


main()
