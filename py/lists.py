"""Contracts of the payload ID list and custom field list parsers."""
from vc.pyvc import *
import z3, json as rjson
M = 'horusdemodlib.payloads'
DEFAULTS = {0: '4FSKTEST', 1: 'HORUSBINARY', 256: '4FSKTEST-V2'}


def text(vc, name, gen, without=',\n'):
    s = vc.str(name, gen=gen)
    if vc.symbolic:
        vc.without[s.z().get_id()] = without
    else:
        for c in without:
            s = s.replace(c, ' ')
    return s


def num(r):
    return r.choice(['0', '1', '2', '3', '256', ' 7 ', '-1', '65535', '007', 'x', '', '1.5', '0x10', '300', '1_0', '99999999999'])


def call(r):
    return r.choice(['HORUS', ' VK5QI ', '', '\t', '4FSKTEST', 'ABC-9', '#x', 'a b', 'X\r'])


def payload_list(vc):
    """each line "ID,callsign" adds that entry, the last one counts; nothing else changes the list"""
    m = vc.module(M)
    if vc.symbolic:
        vc.without = {}
    base = dict(DEFAULTS)
    m.HORUS_PAYLOAD_LIST = dict(base) if not vc.symbolic else fdict(dict(base))
    if not vc.symbolic:
        m.HORUS_PAYLOAD_LIST = dict(base)
    n = vc.pick('lines', [0, 1, 2, 3])
    lines, want = [], []
    for i in range(n):
        kind = vc.pick('kind%d' % i, ['entry', 'entry', 'empty', 'comment', 'one', 'three'] if i < 2 else ['entry', 'one'])
        if kind == 'entry':
            a, b = text(vc, 'id%d' % i, num), text(vc, 'call%d' % i, call)
            lines.append(vc.cat(a, ',', b))
            want.append((a, b))
        elif kind == 'empty':
            lines.append('')
        elif kind == 'comment':
            lines.append(vc.cat('#', text(vc, 'comment%d' % i, lambda r: '5,X', without='\n')))
        elif kind == 'one':
            lines.append(text(vc, 'word%d' % i, lambda r: r.choice(['5', 'x', ' '])))
        else:
            lines.append(vc.cat(text(vc, 'p%d' % i, num), ',', text(vc, 'q%d' % i, call), ',', text(vc, 'r%d' % i, call)))
    end = vc.flag('newline')
    parts = []
    for i, l in enumerate(lines):
        parts += [l, '\n'] if i < n - 1 or end else [l]
    t = vc.cat(*parts) if parts else ''
    r = vc.call(m.parse_payload_list, t)
    vc.ensure(r.ok, 'any text gives a list')
    got = r.value
    exp = dict(base) if not vc.symbolic else fdict(dict(base))
    for a, b in want:
        if vc.cat(a, ',', b).startswith('#'):
            continue
        try:
            k = vc.lib_int(a)
        except ValueError:
            continue
        exp[k] = b.strip()
    vc.ensure(len(got) == len(exp), 'there are no other entries')
    for k in list(exp.keys()):
        vc.ensure(k in got and vc.same(got[k], exp[k]), 'each entry has its callsign, the last one if it is listed twice')
    now = m.HORUS_PAYLOAD_LIST
    vc.ensure(len(now) == len(base) and all(now[k] == base[k] for k in base), 'the list in use is not changed by parsing another one')


STRUCTS = ['<BbBfH', '<hhhhB', '<9s', '<BBBBBBBBB', 'x8B', '<8B', '<10B', '<fff', 'q', 'nonsense', '', '<3H3B']
SIZE = {'<BbBfH': 9, '<hhhhB': 9, '<9s': 9, '<BBBBBBBBB': 9, 'x8B': 9, '<8B': 8, '<10B': 10, '<fff': 12, 'q': 8, 'nonsense': None, '': 0, '<3H3B': 9}


def custom_list(vc):
    """a definition is taken over if and only if its struct has nine bytes, for all payloads it names"""
    m = vc.module(M)
    base = {'DEFAULT': {'struct': '<9s', 'fields': [['x', 'none']]}, 'P0': {'struct': '<8Bb', 'fields': []}}
    m.HORUS_CUSTOM_FIELDS = dict(base)
    shape = vc.pick('shape', ['object', 'object', 'object', 'list', 'number', 'bad'])
    data = {}
    n = vc.pick('n', [0, 1, 2])
    exp = dict(base)
    if shape == 'object':
        for i in range(n):
            d = {}
            st = vc.pick('struct%d' % i, STRUCTS + [None])
            if st is not None:
                d['struct'] = st
            if vc.flag('fields%d' % i):
                d['fields'] = [['f%d' % i, 'none']]
            o = vc.pick('others%d' % i, [None, [], ['Q'], ['P0', 'DEFAULT', 'R']])
            if o is not None:
                d['other_payloads'] = o
            data['P%d' % i] = d
            if st is not None and 'fields' in d and SIZE[st] == 9:
                for k in ['P%d' % i] + (o or []):
                    exp[k] = {'struct': st, 'fields': d['fields']}
        t = rjson.dumps(data)
    else:
        t = {'list': '[1]', 'number': '5', 'bad': '{"P0": '}[shape]
    r = vc.call(m.parse_custom_field_list, t)
    vc.ensure(r.ok, 'any text gives a list')
    got = r.value
    vc.ensure(set(got) == set(exp), 'exactly the payloads with a definition of nine bytes are listed, and the defaults')
    for k in exp:
        vc.ensure(got[k]['struct'] == exp[k]['struct'] and got[k]['fields'] == exp[k]['fields'], 'each payload has the definition given last')
