#!/usr/bin/env python3
"""Writes the corpus: one YAML specification per transport and, for each, the C++ tables that connect the generated
classes to the type-erased harness (harness/pkt.h, harness/system.h).

usage: emit.py OUTDIR          writes OUTDIR/<ns>.yaml and OUTDIR/<ns>_adapter.h/.cpp + codecs.h
"""
import os
import re
import sys
import zlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalog import FIELDS, FIELD, DIFI_REF, DIFI_BUF, WARN, TRAILER, S, U32

OUI = 0xFFEEDD
TSI = {'none': 0, 'utc': 1, 'gps': 2, 'other': 3, 'any': 7}
TSF = {'none': 0, 'samples': 1, 'picoseconds': 2, 'free-running': 3, 'any': 7}
TSF_YAML = {'samples': 'samples', 'picoseconds': 'picoseconds', 'free-running': 'free-running', 'any': 'any'}
SKIP_IN_COMMAND = {(2, 'controllee_id'), (2, 'controller_id')}   # would clash with the prologue accessors


def snake(n):
    out = ''
    for i, c in enumerate(n):
        if c.isupper() and i and not n[i - 1].isupper():
            out += '_'
        out += c.lower()
    return out


# ---- the corpus ------------------------------------------------------------------------------------------------
DIO = {
    # name -> list of (yaml lines, subs)
    'dio_a': ([('switchfield', 'bool'), ('stream_enable', 'enable_indicator'), ('anint', '!!int 8')], ),
    'dio_b': ([('mode_sel', '!!int 3'), ('armed', 'bool'), ('big', '!!int 12')], ),
    'dio_c': ([('big', '!!int 20'), ('flag', 'bool'), ('state', ['zero', 'one', 'two']), ('other', 'enable_indicator')], ),
    'dio_d': ([('wide', '!!int 32'), ('ready', 'bool'), ('tail', '!!int 16')], ),
}


def dio_subs(members, words):
    """positions are assigned upwards from bit 0 in declaration order"""
    subs, pos = [], 0
    def sub(name, bits):
        nonlocal pos
        msb_abs = pos + bits - 1
        # 64 bit structs are big endian over two words: bit 63..32 is word 0
        word = words - 1 - (msb_abs // 32)
        s = S(name, word, msb_abs % 32 if words == 1 or True else 0, bits)
        s['abs'] = (pos, bits)
        subs.append(s)
        pos += bits
    for name, t in members:
        if t == 'bool':
            sub(name, 1)
        elif t == 'enable_indicator':
            sub(name, 1)
            sub(name + '_enable', 1)
        elif isinstance(t, list):
            sub(name, (len(t) + 1) // 2)
        else:
            sub(name, int(t.split()[1]))
    return subs


def mkfield(f, req, dio=None, entry=None):
    f = dict(f)
    f['req'] = req
    if f['name'].startswith('discrete_io'):
        f['dio'] = dio
        f['subs'] = dio_subs(DIO[dio][0], f['words'])
    if f['name'] == 'index_list':
        f['entry'] = entry
        f['req'] = True         # the parser has no optional index list
    return f


# (spec, packet): indicator words all of whose fields are optional, so that the word itself comes and goes
OPT_ONLY = {(0, 'Stat'): (2,), (1, 'Tune'): (2,), (2, 'Tune'): (1, 2), (0, 'Var'): (2,), (1, 'Halt'): (1,),
            (2, 'Stat'): (1, 2), (0, 'Tune'): (), (1, 'Probe'): (1,), (2, 'Probe'): (2,)}


def distribute(k, buckets, kind):
    """deterministically spread the catalogue over the packets of specification k"""
    out = {b: [] for b in buckets}
    for i, f in enumerate(FIELDS):
        for b, (a, m, opt, req) in buckets.items():
            oo = OPT_ONLY.get((k, b), ())
            if f['cif'] in oo and f['name'] == 'index_list':
                continue
            if kind[b] == 'command' and (f['cif'], f['name']) in SKIP_IN_COMMAND:
                continue
            r = (i * a + k * 5 + (i // 7)) % m
            if r in opt or r in req:
                g = f
                if k == 1 and f['name'] == 'reference_level':
                    g = DIFI_REF
                if k == 1 and f['name'] == 'buffer_size':
                    g = DIFI_BUF
                dio = None
                if f['name'] == 'discrete_io_32':
                    dio = ['dio_a', 'dio_b', 'dio_a'][k]
                if f['name'] == 'discrete_io_64':
                    dio = ['dio_c', 'dio_d', 'dio_c'][k] if kind[b] == 'context' else ['dio_d', 'dio_c', 'dio_c'][k]
                entry = [16, 32, 8][(k + i + len(b)) % 3] if f['name'] == 'index_list' else None
                out[b].append(mkfield(g, r in req and f['cif'] not in oo, dio, entry))
    return out


# the attributes (CIF7) of the fields of the packet Attr: name, bit
ATTRS = [(('mean_value', 30), ('max_value', 27), ('accuracy', 24)),
         (('median_value', 29), ('standard_deviation', 28), ('probability', 20), ('belief', 19)),
         (('min_value', 26), ('precision', 25), ('first_derivative', 23), ('second_derivative', 22), ('third_derivative', 21))]
ATTRS_CMD = (('mean_value', 30), ('probability', 20))      # of the command Halt of the third specification
PROBABILITY = dict(shape='FIXED', words=1, struct='vrtgen::packing::Probability',
                   subs=[S('probability_function', 0, 15, 8), S('probability_percent', 0, 7, 8)])
BELIEF = dict(shape='FIXED', words=1, struct='vrtgen::packing::Belief', subs=[S('belief_percent', 0, 7, 8)])


def with_attributes(fields, attrs):
    out = []
    for f in fields:
        out.append(f)
        for n, _ in attrs:
            a = dict({'probability': PROBABILITY, 'belief': BELIEF}.get(n, f))
            a.update(name=f['name'] + '.' + n, attr=n, of=f['name'], cif=f['cif'], bit=f['bit'], req=f['req'])
            out.append(a)
    return out


def build():
    specs = []
    for k, (ns, sock, ctl) in enumerate((('nu', 'udp', 'uuid'), ('nt', 'tcp', 'word'), ('nn', 'nats', None))):
        kinds = {'Tune': 'command', 'Halt': 'command', 'Probe': 'command', 'Stat': 'context', 'Var': 'context', 'Attr': 'context'}
        fl = distribute(k, {
            'Tune': (7, 6, (0, 2, 5), (3,)),
            'Halt': (7, 6, (4,), (1,)),
            'Probe': (5, 9, (1,), (4,)),
            'Stat': (7, 6, (1, 4), (5,)),
            'Var': (5, 6, (0, 2), (3,)),
            'Attr': (4, 6, (1, 3), (5,)),
        }, kinds)
        fl['Attr'] = [f for f in fl['Attr'] if f['name'] != 'index_list']
        if k == 1:
            fl['Attr'].append(mkfield(FIELD[1, 'index_list'], True, entry=16))
        # the variable length fields go where both directions of change are common
        have = {f['name'] for f in fl['Var']}
        for c, n in ((0, 'gps_ascii'), (0, 'context_association_lists'), (1, 'index_list')):
            if n not in have:
                fl['Var'].append(mkfield(FIELD[c, n], False, entry=[8, 16, 32][k]))
        order = {(f['cif'], f['name']): i for i, f in enumerate(FIELDS)}
        for b in fl:
            fl[b].sort(key=lambda f: order[f['cif'], f['name']])
        P = []
        def cmd(name, code, tsi, tsf, cam, controllee, reqs, sid=True):
            P.append(dict(name=name, kind='command', code=code, tsi=tsi, tsf=tsf, cam=cam, controllee=controllee,
                          controller=ctl, fields=fl[name], reqs=reqs))
            if name == 'Halt' and k == 2:
                P[-1].update(cif7=ATTRS_CMD, fields=with_attributes(fl[name], ATTRS_CMD))
        cmd('Tune', 0x1234 + k, 'utc', 'picoseconds',
            dict(action='execute', partial=True, warnings=True, errors=(k == 1)), ['word', 'uuid', 'word'][k],
            dict(v='optional', x='optional', s='optional', w=True, er=True))
        cmd('Halt', 0x1240 + k, ['gps', 'none', 'utc'][k], ['none', 'none', 'samples'][k],
            dict(action=['execute', 'dry-run', 'execute'][k], partial=False, warnings=(k != 0), errors=True), ['uuid', 'word', 'word'][k],
            dict(v=['optional', 'optional', True][k], x=['optional', True, 'optional'][k], s=None, w=True, er=True))
        cmd('Probe', 0x1250 + k, 'none', 'none', dict(action='none', partial=False, warnings=False, errors=False),
            'word', dict(v=None, x=None, s=True, w=None, er=None))
        if k == 1:
            P[-2].update(sid=(('bank', 7), ('slot', 13)))
        if k == 2:
            P[-1].update(ext=True)
        if k == 0:
            P[-2].update(ext=True)
        P.append(dict(name='Stat', kind='context', code=0x2001, tsi=['any', 'utc', 'utc'][k], tsf='picoseconds', fields=fl['Stat'], tsm=[None, 'any', 'coarse'][k]))
        P.append(dict(name='Var', kind='context', code=0x2002, tsi='none', tsf='none', fields=fl['Var'],
                      sid=[None, 0x5A5AF00F, (('low', 1), ('high', 30))][k]))
        P.append(dict(name='Attr', kind='context', code=0x2003, ext=(k == 0), tsi='none', tsf='none', cif7=ATTRS[k],
                      fields=with_attributes(fl['Attr'], ATTRS[k])))
        P.append(dict(name='Iq', kind='data', code=0x3001, tsi=['utc', 'utc', 'any'][k], tsf='picoseconds',
                      trailer=[('sample_frame', 'required'), ('user_defined_flag', 'enable_indicator'),
                               ('user_defined_other', 'enable_indicator')], sid=True))
        P.append(dict(name='Raw', kind='data', code=None, tsi='utc', tsf=['picoseconds', 'free-running', 'samples'][k],
                      trailer=None, sid=True))
        P.append(dict(name='Burst', kind='data', code=0x3002, tsi='none', tsf='none', trailer=None, sid=(k == 0)))
        specs.append(dict(ns=ns, sock=sock, packets=P, k=k, info=[0, 0xC07, 3][k], shared=[(), (), ('Stat', 'Iq')][k]))
    specs.append(plain())
    return specs


def plain():
    """packets without a controller or information class: the forms of prologue and trailer the others do not have"""
    def field(cif, name, req):
        return mkfield(FIELD[cif, name], req)
    P = []
    def data(name, tsi='none', tsf='none', trailer=None, sid=False, **kw):
        P.append(dict(name=name, kind='data', code=None, tsi=tsi, tsf=tsf, trailer=trailer, sid=sid, **kw))
    def ctxt(name, fields, tsi='none', tsf='none', **kw):
        P.append(dict(name=name, kind='context', code=None, tsi=tsi, tsf=tsf, fields=fields, **kw))
    def cmd(name, cam, reqs, fields, tsi='none', tsf='none', controllee=None, controller=None, **kw):
        P.append(dict(name=name, kind='command', code=None, tsi=tsi, tsf=tsf, controllee=controllee, controller=controller,
                      cam=dict(dict(partial=False, warnings=False, errors=False), **cam),
                      reqs=dict(dict(v=None, x=None, s=None, w=None, er=None), **reqs), fields=fields, **kw))
    data('Bare')
    data('Spec', sid=True, spectrum=True)
    data('Fixed', tsi='gps', sid=0xDEADBEEF)
    data('Parts', tsf='free-running', sid=(('thing1', 10), ('thing2', 12), ('thing3', 10)), cls=dict(oui=OUI, code=0x4001, info=0x55),
         trailer=[('user_defined_sort', ['zero', 'one', 'two', 'three', 'four', 'five', 'six', 'seven', 'eight'])])
    data('Frame', tsi='other', tsf='samples', cls=dict(oui=0x7C386C),
         trailer=[('sample_frame', 'required'), ('user_defined_1', ['zero', 'one', 'two'])])
    data('Full', sid=True, trailer=[('user_defined_%d' % i, 'enable_indicator') for i in (1, 2, 3, 4)])
    ctxt('Where', [field(0, 'bandwidth', True), field(0, 'gain', False)], tsi='other')
    data('Open', sid=True, tsi='any', tsf='any', cls=dict(code=0x4004))
    data('When', tsi='none', tsf='any', trailer=[('user_defined_1', 'enable_indicator')])
    ctxt('Wide', [field(0, 'bandwidth', True), field(0, 'gain', False), field(1, 'range', False)], tsi='any', tsf='samples', tsm='any')
    ctxt('Late', [field(0, 'reference_level', False), field(0, 'sample_rate', False)], ext=True, tsm='coarse', tsi='utc', cls=dict(oui=OUI, code=4, info=1))
    ctxt('Mode', [field(0, 'temperature', False)], ext=True, tsm='any')
    ctxt('Tick', [field(1, 'phase_offset', True), field(1, 'range', False)], tsf='picoseconds', sid=0x80000001)
    ctxt('Mute', [field(0, 'reference_point_id', False), field(2, 'bind', False)], sid=(('unit', 4), ('rest', 20)), cls=dict(code=0x4003, info=0xFFFF))
    ctxt('Mean', with_attributes([field(0, 'bandwidth', True)], (('mean_value', 30),)), cif7=(('mean_value', 30),), nocur=True)
    cmd('Go', dict(action='execute'), dict(v=True, x='optional', w=True), [field(0, 'bandwidth', False)])
    cmd('Try', dict(action='dry-run', errors=True), dict(v='optional', s='optional', er=True),
        [field(1, 'phase_offset', True), field(1, 'range', False)], tsi='gps', tsf='samples', controller='uuid', sid=0x11223344, cls=dict(code=0x4002))
    cmd('Run', dict(action='execute'), dict(v='optional', x='optional', s='optional', w=True), [field(0, 'bandwidth', True), field(1, 'range', False)], controllee='word', ext=True)
    return dict(ns='np', sock=None, packets=P, k=3, info=0, shared=())


# ---- YAML --------------------------------------------------------------------------------------------------------
def restyle(text):
    """The same specification in another style: sections and entries in another order, literals in mixed case, numbers in another base."""
    def tree(lines, ind):
        out = []
        i = 0
        while i < len(lines):
            j = i + 1
            while j < len(lines) and len(lines[j]) - len(lines[j].lstrip()) > ind: j += 1
            kids = lines[i + 1:j]
            out.append((lines[i], tree(kids, ind + 2) if kids and not kids[0].lstrip().startswith('- ') else kids))
            i = j
        return out
    FIXED = ('!Trailer', '!DiscreteIO', '!StreamID', '!InformationClass', '!IndexList', '!Ack', '!ExtensionAck')
    def flat(nodes, depth, keep):
        out = []
        if depth and not keep:
            none = any(l.strip() == 'action_mode: none' for l, _ in nodes)
            nodes = list(nodes) if none else sorted(nodes, key=lambda n: zlib.crc32(n[0].encode()))
        for l, kids in nodes:
            def lit(m):
                v = m.group(2)
                return m.group(1) + [v.upper(), v.capitalize(), v][zlib.crc32(l.encode()) % 3]
            l = re.sub(r'^(\s+(?:integer|fractional|action_mode|controllee_id|controller_id|tsm|spectrum_or_time|\w+): )(required|optional|utc|gps|other|any|samples|picoseconds|free-running|execute|dry-run|none|word|uuid|fine|coarse|spectrum|time)$', lit, l)
            l = re.sub(r'(!StreamID )(0x.*0.)$', lambda m: m.group(1) + str(int(m.group(2), 16)), l)
            l = re.sub(r'(oui: )(.*)$', lambda m: m.group(1) + m.group(2).lower(), l)
            out.append(l)
            if kids and isinstance(kids[0], tuple):
                out += flat(kids, depth + 1, any(t in l for t in FIXED))
            else:
                out += kids
        return out
    return '\n'.join(flat(tree(text.rstrip('\n').split('\n'), 0), 0, False)) + '\n'


def yaml_of(spec):
    L = []
    names = []
    for p in spec['packets']:
        ext = 'Extension' if p.get('ext') else ''
        tag = {'command': '!%sControl' % ext, 'context': '!%sContext' % ext, 'data': '!Data'}[p['kind']]
        L.append('%s: %s' % (p['name'], tag))
        names.append(p['name'])
        if isinstance(p.get('sid'), tuple):
            L.append('  stream_id: !StreamID')
            for n, bits in p['sid']:
                L += ['    %s: !IntegerType' % n, '      bits: %d' % bits]
        elif p.get('sid') not in (None, True, False):
            L.append('  stream_id: !StreamID 0x%X' % p['sid'])
        elif p['kind'] != 'data' or p.get('sid'):
            L.append('  stream_id: !StreamID')
        if p.get('tsm'):
            L.append('  tsm: ' + p['tsm'])
        if p.get('spectrum'):
            L.append('  spectrum_or_time: spectrum')
        if p.get('cls'):
            c = p['cls']
            L.append('  class_id: !ClassID')
            if 'oui' in c:
                L.append('    oui: %s' % '-'.join('%02X' % (c['oui'] >> s & 255) for s in (16, 8, 0)))
            if 'info' in c:
                L.append('    information_code: 0x%X' % c['info'])
            if 'code' in c:
                L.append('    packet_code: 0x%X' % c['code'])
        if p.get('code') is not None:
            L += ['  class_id: !ClassID', '    oui: FF-EE-DD', '    packet_code: 0x%04X' % p['code']]
        if p['tsi'] != 'none' or p['tsf'] != 'none':
            L.append('  timestamp: !Timestamp')
            if p['tsi'] != 'none':
                L.append('    integer: %s' % p['tsi'])
            if p['tsf'] != 'none':
                L.append('    fractional: %s' % TSF_YAML[p['tsf']])
        if p['kind'] == 'command':
            L.append('  cam: !ControlAcknowledgeMode')
            c, r = p['cam'], p['reqs']
            def fl(n, v):
                if v:
                    L.append('    %s: %s' % (n, 'true' if v is True else v))
            if c['action'] == 'none':
                fl('req_s', r['s'])
                L.append('    action_mode: none')
            else:
                L.append('    action_mode: %s' % c['action'])
                fl('permit_partial', c['partial'])
                fl('permit_warnings', c['warnings'])
                fl('permit_errors', c['errors'])
                for n in 'vxs':
                    fl('req_' + n, r[n])
                fl('req_w', r['w'])
                fl('req_er', r['er'])
            if p['controllee']:
                L.append('  controllee_id: %s' % p['controllee'])
            if p['controller']:
                L.append('  controller_id: %s' % p['controller'])
        for cif in range(3):
            fs = [f for f in p.get('fields', ()) if f['cif'] == cif and not f.get('attr')]
            if not fs:
                continue
            L.append('  cif_%d: !CIF%d' % (cif, cif))
            for f in fs:
                mode = 'required' if f['req'] else 'optional'
                if f['name'] == 'index_list':
                    L += ['    index_list: !IndexList', '      entry_size: %d' % f['entry']]
                elif 'dio' in f:
                    L.append('    %s: !DiscreteIO%d' % (f['name'], 32 * f['words']))
                    L.append('      mode: %s' % mode)
                    for n, t in DIO[f['dio']][0]:
                        if isinstance(t, list):
                            L.append('      %s: !!seq' % n)
                            L += ['        - %s' % x for x in t]
                        else:
                            L.append('      %s: %s' % (n, t))
                elif f.get('tag'):
                    L.append('    %s: %s' % (f['name'], f['tag']))
                    L.append('      mode: %s' % mode)
                else:
                    L.append('    %s: %s' % (f['name'], mode))
        if p.get('cif7'):
            L += ['  cif_7: !CIF7'] + ([] if p.get('nocur') else ['    current_value: required']) + ['    %s: required' % n for n, _ in p['cif7']]
        if p.get('trailer'):
            L.append('  trailer: !Trailer')
            for n, t in p['trailer']:
                if isinstance(t, list):
                    L.append('    %s: !!seq' % n)
                    L += ['      - %s' % x for x in t]
                else:
                    L.append('    %s: %s' % (n, t))
        if p['kind'] == 'command':
            L += ['%sAck: !%sAck' % (p['name'], ext), '  responds_to: %s' % p['name']]
            names.append(p['name'] + 'Ack')
    if not spec['sock']:
        return '\n'.join(L) + '\n'
    L += ['Info: !InformationClass']
    if spec['info']:
        L += ['  code: %d' % spec['info']]
    L += ['  packet_classes:'] + ['    - ' + n for n in names]
    if spec['shared']:      # these belong to two information classes: the code is up to the sender
        L += ['Other: !InformationClass', '  code: %d' % (spec['info'] + 1), '  packet_classes:'] + ['    - ' + n for n in spec['shared']]
    return '\n'.join(L) + '\n'


# ---- C++ ----------------------------------------------------------------------------------------------------------
def sub_cxx(s):
    return '{"%s",%d,%d,%d,\'%s\',%d}' % (s['name'], s['word'], s['msb'], s['bits'], s['kind'], s['arg'])


def named(T, values):
    return 'PKT_NAMED(%s, %s)' % (T, ', '.join('{%d, T::%s}' % x for x in enumerate(values)))


def codec_body(subs, guard=False):
    set_, get_ = [], []
    for i, s in enumerate(subs):
        if s['kind'] == 'e':
            set_.append('PKT_SUBE_SET(o, %s, v[%d]);' % (s['name'], i))
            get_.append('v.push_back(PKT_SUBE_GET(o, %s));' % s['name'])
        else:
            set_.append("PKT_SUB_SET(o, %s, '%s', %d, v[%d]);" % (s['name'], s['kind'], s['arg'], i))
            get_.append("v.push_back(PKT_SUB_GET(o, %s, '%s', %d));" % (s['name'], s['kind'], s['arg']))
    return set_, get_


def codec(T, subs):
    a, b = codec_body(subs)
    return ('template <> struct Codec<%s> {\n    static void set(%s& o, const Vals& v) { %s }\n'
            '    static void get(%s& o, Vals& v) { v.clear(); %s }\n};\n') % (T, T, ' '.join(a), T, ' '.join(b))


def codecs_h():
    out = ['// generated by gen/emit.py', '#pragma once', '#include <vrtgen/vrtgen.hpp>', '#include "pkt.h"', '#include "enums.h"', 'namespace pkt {',
           'template <> struct Codec<vrtgen::UUID> {',
           '    static void set(vrtgen::UUID& o, const Vals& v) { o.set(uuid_text(v)); }',
           '    static void get(vrtgen::UUID& o, Vals& v) { v.clear(); uuid_parse(o.get(), v); }', '};']
    seen = set()
    for f in FIELDS + [DIFI_REF, DIFI_BUF, PROBABILITY, BELIEF]:
        T = f.get('struct')
        if f['shape'] != 'FIXED' or not T or T in seen or T.startswith('DIO') or T == 'vrtgen::UUID':
            continue
        seen.add(T)
        out.append(codec(T, f['subs']))
    out.append(codec('vrtgen::packing::WarningErrorFields', [S(n, 0, 31 - i, 1) for i, n in enumerate(WARN)]))
    out.append('''template <> struct Codec<vrtgen::packing::GPS_ASCII> {
    using T = vrtgen::packing::GPS_ASCII;
    static void set(T& o, const Vals& v) {
        o.manufacturer_oui((uint32_t)v[0]);
        std::vector<uint8_t> b; for (size_t i = 1; i < v.size(); ++i) b.push_back((uint8_t)v[i]);
        // a value may also be changed in place
        if (b.size() >= 4 && b[0] % 2) { o.ascii_sentences() = b; while (o.ascii_sentences().back() == 0 && o.ascii_sentences().size() % 4 != 1) o.ascii_sentences().pop_back(); }
        else o.ascii_sentences(b);
    }
    static void get(T& o, Vals& v) { v = {o.manufacturer_oui()}; for (auto c : o.ascii_sentences()) v.push_back(c); while ((v.size() - 1) % 4) v.push_back(0); }
};
template <class E> struct Codec<vrtgen::packing::IndexList<E>> {
    using T = vrtgen::packing::IndexList<E>;
    static void set(T& o, const Vals& v) {
        std::vector<E> e; for (auto x : v) e.push_back((E)x);
        if (!e.empty() && e[0] % 2) o.entries().swap(e);
        else { o.entries(e); o.num_entries((uint32_t)e.size()); }
        o.entry_size(static_cast<std::decay_t<decltype(o.entry_size())>>(sizeof(E) == 1 ? 1 : sizeof(E) == 2 ? 2 : 4));
        o.total_size((uint32_t)(2 + (v.size() * sizeof(E) + 3) / 4));
    }
    static void get(T& o, Vals& v) { v.clear(); for (auto x : o.entries()) v.push_back((int64_t)x); }
};
template <> struct Codec<vrtgen::packing::ContextAssociationLists> {
    using T = vrtgen::packing::ContextAssociationLists;
    static std::vector<uint32_t> cut(const Vals& v, size_t& at, size_t n) {
        std::vector<uint32_t> r; while (n--) r.push_back((uint32_t)v[at++]); return r;
    }
    static void set(T& o, const Vals& v) {
        size_t at = 5;
        o.source_list(cut(v, at, v[0])); o.system_list(cut(v, at, v[1])); o.vector_component_list(cut(v, at, v[2]));
        if (v[3] % 2) o.async_channel_list() = cut(v, at, v[3]); else o.async_channel_list(cut(v, at, v[3]));
        o.async_channel_tag_list_enable(v[4] != 0);
        o.async_channel_tag_list(cut(v, at, v[4] ? v[3] : 0));
    }
    static void get(T& o, Vals& v) {
        v = {(int64_t)o.source_list().size(), (int64_t)o.system_list().size(), (int64_t)o.vector_component_list().size(),
             (int64_t)o.async_channel_list().size(), o.async_channel_tag_list_enable()};
        for (auto* l : {&o.source_list(), &o.system_list(), &o.vector_component_list(), &o.async_channel_list(), &o.async_channel_tag_list()})
            for (auto x : *l) v.push_back(x);
    }
};''')
    out.append('} // namespace pkt')
    return '\n'.join(out) + '\n'


def fields_table(P, fields, var, ns_structs, flags=False):
    out = ['static std::vector<pkt::FieldDesc> %s() { std::vector<pkt::FieldDesc> t;' % var, 'using P_ = %s;' % P]
    for f in fields:
        if flags:       # a query: only the indicator bits
            out.append('t.push_back({"%s",%d,%d,%s,pkt::FLAG,0,{},0, PKT_FLAG(P_, %s)});'
                       % (f['name'], f['cif'], f['bit'], b(f['req']), f['name']))
            continue
        subs = ', '.join(sub_cxx(s) for s in f['subs'])
        eb = f.get('entry', 0) or 0
        head = '"%s",%d,%d,%s,pkt::%s,%d,{%s},%d,' % (f['name'], f['cif'], f['bit'], 'true' if f['req'] else 'false',
                                                      f['shape'], f['words'], subs, eb)
        T = f.get('struct')
        if f.get('attr') and T is None:
            s = f['subs'][0]
            acc = "PKT_ATTR_SCALAR(P_, %s, %s, '%s', %d)" % (f['of'], f['attr'], s['kind'], s['arg'])
        elif T is None:
            s = f['subs'][0]
            acc = "PKT_SCALAR(P_, %s, '%s', %d)" % (f['name'], s['kind'], s['arg'])
        else:
            if T.startswith('DIO'):
                T = ns_structs + '::DiscreteIO' + T[3:]
            if T.endswith('IndexList'):
                T += '<uint%d_t>' % f['entry']
            acc = 'PKT_STRUCT(P_, %s, %s)' % (f['name'], T)
            if f.get('attr'):
                acc = 'PKT_ATTR_STRUCT(P_, %s, %s, %s)' % (f['of'], f['attr'], T)
        out.append('t.push_back({%s %s});' % (head, acc))
    out.append('return t; }')
    return out


def weif_table(P, fields, var, suffix):
    out = ['static std::vector<pkt::FieldDesc> %s() { std::vector<pkt::FieldDesc> t;' % var, 'using P_ = %s;' % P]
    subs = ', '.join('{"%s",0,%d,1,\'u\',0}' % (n, 31 - i) for i, n in enumerate(WARN))
    out.append('const std::vector<pkt::Sub> s{%s};' % subs)
    for f in fields:
        out.append('t.push_back({"%s%s",%d,%d,false,pkt::FIXED,1,s,0, PKT_STRUCT(P_, %s%s, vrtgen::packing::WarningErrorFields)});'
                   % (f['name'], suffix, f['cif'], f['bit'], f['name'], suffix))
    out.append('return t; }')
    return out


def b(x):
    return 'true' if x else 'false'


def adapter_cpp(spec):
    ns, k = spec['ns'], spec['k']
    pk = '%s::packets' % ns
    out = ['// generated by gen/emit.py', '#include <thread>', '#include <atomic>', '#include <functional>', '#include "system.h"',
           *(['#include "%s_controllee.h"' % ns, '#include <Controller.hpp>'] if spec['sock'] else
             ['#include <%s.hpp>' % (snake(p['name']) + a) for p in spec['packets'] for a in (['', '_ack'] if p['kind'] == 'command' else [''])]),
           '#include "codecs.h"', 'namespace pkt {']
    rows = []
    enums = set()
    for p in spec['packets']:
        sn = snake(p['name'])
        structs = [(sn, p['name'], p)]
        if p['kind'] == 'command':
            structs.append((sn + '_ack', p['name'] + 'Ack', p))
        for s, _, _ in structs:
            done = set()
            for f in p.get('fields', ()):
                if 'dio' in f and f['struct'] not in done and (s == sn and p['name'] != 'Probe' or s != sn and p['reqs']['s']):
                    done.add(f['struct'])
                    for n, t in DIO[f['dio']][0]:
                        if isinstance(t, list) and (s, n) not in enums:
                            enums.add((s, n))
                            out.append(named('%s::%s::enums::%s' % (pk, s, n), t))
                    out.append(codec('%s::%s::structs::DiscreteIO%s' % (pk, s, f['struct'][3:]), f['subs']))
        if p.get('trailer'):
            subs = trailer_subs(p)
            T = '%s::%s::structs::Trailer' % (pk, sn)
            out += [named('%s::%s::enums::%s' % (pk, sn, n), t) for n, t in p['trailer'] if isinstance(t, list)]
            a, g = [], []
            for i, s in enumerate(subs):
                if s['kind'] == 'e':
                    a.append('PKT_SUBE_SET(o, %s, v[%d]);' % (s['name'], i))
                    g.append('v.push_back(PKT_SUBE_GET(o, %s));' % s['name'])
                elif s['kind'] == 'E':
                    a.append('if (v[%d] < 0) o.reset_%s(); else o.%s(pkt::from_raw<typename pkt::unopt<std::decay_t<decltype(o.%s())>>::type>(\'u\', 0, v[%d]));'
                             % (i, s['name'], s['name'], s['name'], i))
                    g.append('v.push_back(PKT_SUBE_GET(o, %s));' % s['name'])
                else:   # enabled by being set; cannot be cleared
                    a.append("if (v[%d] >= 0) o.%s(pkt::from_raw<typename pkt::unopt<std::decay_t<decltype(o.%s())>>::type>('u', 0, v[%d]));"
                             % (i, s['name'], s['name'], i))
                    g.append('v.push_back(PKT_SUBE_GET(o, %s));' % s['name'])
            out.append('template <> struct Codec<%s> {\n static void set(%s& o, const Vals& v) { %s }\n static void get(%s& o, Vals& v) { v.clear(); %s }\n};'
                       % (T, T, ' '.join(a), T, ' '.join(g)))
        if isinstance(p.get('sid'), tuple):
            a, g, at = [], [], 0
            for n, bits in p['sid']:
                a.append('o.%s(static_cast<std::decay_t<decltype(o.%s())>>(v >> %d & 0x%X));' % (n, n, at, (1 << bits) - 1))
                g.append('(uint32_t)o.%s() << %d' % (n, at))
                at += bits
            for s, _, _ in structs:
                T = '%s::%s::structs::StreamIdentifier' % (pk, s)
                out.append('template <> struct SidCodec<%s> { static void set(%s& o, uint32_t v) { %s } static uint32_t get(const %s& o) { return %s; } };'
                           % (T, T, ' '.join(a), T, ' | '.join(g)))
    out += ['}', 'namespace {']
    cmds, datas = [], []
    idx = 0
    body = []
    for p in spec['packets']:
        sn = snake(p['name'])
        C = '%s::%s' % (pk, p['name'])
        fs = p.get('fields', [])
        ackfs = [f for f in fs if not f.get('attr')]        # acknowledgements have no attributes
        code = p.get('code')
        cls_ = p.get('cls') or (dict(oui=OUI, code=code, info=spec['info']) if code is not None else None)
        typ = {'command': 6, 'context': 4, 'data': 1 if p.get('sid') else 0}[p['kind']] + (1 if p.get('ext') else 0)
        ind = 1 if p.get('tsm') == 'coarse' else 0
        if p['kind'] == 'data':
            ind = (4 if p.get('trailer') else 0) | (2 if p.get('spectrum') or 'sample_frame' in dict(p.get('trailer') or ()) else 0) | (1 if p.get('spectrum') else 0)
        cam = 0
        reqs = {'v': 0, 'x': 0, 's': 0}
        if p['kind'] == 'command':
            c, r = p['cam'], p['reqs']
            cam |= {'none': 0, 'dry-run': 1, 'execute': 2}[c['action']] << 23
            cam |= (1 << 27 if c['partial'] else 0) | (1 << 26 if c['warnings'] else 0) | (1 << 25 if c['errors'] else 0)
            cam |= 1 << 31 if p['controllee'] else 0
            cam |= 1 << 30 if p['controllee'] == 'uuid' else 0
            cam |= 1 << 29 if p['controller'] else 0
            cam |= 1 << 28 if p['controller'] == 'uuid' else 0
            for n in 'vxs':
                reqs[n] = {None: 0, True: 1, 'optional': 2}[r[n]]
        used = [any(f['cif'] == c for f in fs) for c in range(3)]
        need = [any(f['cif'] == c and f['req'] for f in fs) for c in range(3)]
        if p['kind'] != 'data':
            used[0] = need[0] = True
        idk = {None: 'ID_NONE', 'word': 'ID_WORD', 'uuid': 'ID_UUID'}

        def desc(name, kind, typ, ind, cls, flds, extra):
            nonlocal idx
            var = 'd_%s' % name.lower()
            body.append('static pkt::PacketDesc %s() { pkt::PacketDesc d{};' % var)
            body.append('d.name="%s"; d.kind=pkt::%s; d.type=%d; d.has_sid=%s; d.has_class=%s; d.oui=0x%X; d.info=%d; d.any_info=%s; d.code=%d; d.tsi=%d; d.tsf=%d;'
                        % (name, kind, typ, b(p['kind'] != 'data' or p.get('sid')), b(cls_), *[(cls_ or {}).get(n, 0) for n in ('oui', 'info')], b(name in spec['shared']), (cls_ or {}).get('code', 0), TSI[p['tsi']], TSF[p['tsf']]))
            body.append('d.has_trailer=%s; d.indicators=%d; d.controllee=pkt::%s; d.controller=pkt::%s; d.cam_fixed=0x%Xu;'
                        % (b(p.get('trailer')), ind, idk[p.get('controllee')], idk[p.get('controller')], cam))
            body.append('d.req_v=(pkt::Req)%d; d.req_x=(pkt::Req)%d; d.req_s=(pkt::Req)%d; d.req_w=%s; d.req_er=%s;'
                        % (reqs['v'], reqs['x'], reqs['s'], b(p.get('reqs', {}).get('w')), b(p.get('reqs', {}).get('er'))))
            body.append('d.responds_to=%d; d.any_tsm=%s;' % (len(cmds), b(p.get('tsm') == 'any')))
            if isinstance(p.get('sid'), tuple):
                body.append('d.sid_mask=0x%Xu;' % ((1 << sum(n for _, n in p['sid'])) - 1))
            elif p.get('sid') not in (None, True, False):
                body.append('d.sid0=0x%Xu;' % p['sid'])
            for c in range(3):
                body.append('d.cif_used[%d]=%s; d.cif_req[%d]=%s;' % (c, b(used[c]), c, b(need[c])))
            if p.get('cif7') and not kind.startswith('ACK'):
                body.append('d.cif7=0x%Xu;' % ((0 if p.get('nocur') else 1 << 31) | sum(1 << bit for _, bit in p['cif7'])))
            body.extend(extra)
            body.append('d.ops=pkt::Gen<%s>::ops(); return d; }' % cls)
            rows.append(var)
            idx += 1
            return idx - 1

        if fs:
            out += fields_table(C, fs, 'f_' + sn, '%s::%s::structs' % (pk, sn), flags=p['name'] == 'Probe')
        kind = {'command': 'COMMAND', 'context': 'CONTEXT', 'data': 'DATA'}[p['kind']]
        extra = []
        if fs:
            extra.append('d.f=f_%s();' % sn)
        if p.get('trailer'):
            extra.append('d.trailer={%s};' % ', '.join(sub_cxx(s) for s in trailer_subs(p)))
        vx = s_ = -1
        me = idx
        if p['kind'] == 'command':
            nxt = idx + 1
            if p['reqs']['v'] or p['reqs']['x']:
                vx = nxt
                nxt += 1
            if p['reqs']['s']:
                s_ = nxt
            extra.append('d.ack_vx=%d; d.ack_s=%d;' % (vx, s_))
        if p['kind'] == 'context' and any(f['cif'] for f in fs):
            ind |= 2        # not a V49.0 packet
        desc(p['name'], kind, typ, ind, C, fs, extra)
        if p['kind'] == 'command':
            ind = 4
            if vx >= 0:
                A = C + 'AckVX'
                ex = []
                if p['reqs']['w']:
                    out += weif_table(A, ackfs, 'w_' + sn, '_warnings')
                    ex.append('d.w=w_%s();' % sn)
                if p['reqs']['er']:
                    out += weif_table(A, ackfs, 'e_' + sn, '_errors')
                    ex.append('d.e=e_%s();' % sn)
                desc(p['name'] + 'AckVX', 'ACKVX', typ, 4, A, fs, ex)
            if s_ >= 0:
                A = C + 'AckS'
                out += fields_table(A, ackfs, 'fs_' + sn, '%s::%s_ack::structs' % (pk, sn))
                desc(p['name'] + 'AckS', 'ACKS', typ, 4, A, fs, ['d.f=fs_%s();' % sn])
            cmds.append((p, me, vx, s_))
        else:
            datas.append((p, me))
    out += body
    # ---- the system interface
    out.append('std::vector<pkt::PacketDesc> g_table;')
    if not spec['sock']:
        out.append('sysif::System g_sys{"%s", sysif::UDP, {}, {}, {}, nullptr, nullptr};' % ns)
        out.append('struct Init { Init() {')
        out += ['g_table.push_back(%s());' % r for r in rows]
        out.append('for (auto& d : g_table) { d.ops.d = &d; g_sys.table.push_back(&d); } sysif::all_systems().push_back(&g_sys); } } g_init;')
        out.append('} // namespace')
        return '\n'.join(out) + '\n'
    out.append('struct Ctl : sysif::ControllerIf { %s::Controller c;' % ns)
    if spec['sock'] == 'nats':
        out.append('explicit Ctl(const sysif::Addr& a) : c(a.ip) {}')
        out.append('void target(const sysif::Addr& a) override { c.controllee_endpoint(a.subject); }')
        out.append('std::string target() override { return c.controllee_endpoint(); }')
        out.append('int fd() override { return -1; }')
    else:
        out.append('explicit Ctl(const sysif::Addr& a) : c({a.ip, a.port}) {}')
        out.append('void target(const sysif::Addr& a) override { c.controllee_endpoint({a.ip, a.port}); }')
        out.append('std::string target() override { return c.controllee_endpoint().to_string(); }')
        out.append('int fd() override { return c.cmd_socket().native_handle(); }')
    out.append('void identity(const pkt::Vals& v) override { (void)v; %s }' % (
        {'uuid': 'vrtgen::UUID u; u.set(pkt::uuid_text(v)); c.controller_id(u);', 'word': 'c.controller_id((uint32_t)v[0]);', None: ''}
        [['uuid', 'word', None][k]]))
    out.append('sysif::SendResult send(int cmd, void* p) override { sysif::SendResult r; try { switch (cmd) {')
    for i, (p, me, vx, s_) in enumerate(cmds):
        out.append('case %d: { auto t = c.send_%s(*static_cast<%s::%s*>(p));' % (i, snake(p['name']), pk, p['name']))
        n = 0
        for kk in 'vxs':
            if p['reqs'][kk]:
                cls = 'AckS' if kk == 's' else 'AckVX'
                out.append('if (auto& a = std::get<%d>(t)) r.%s = pkt::Any(g_table[%d], new %s::%s%s(*a));' % (n, kk, s_ if kk == 's' else vx, pk, p['name'], cls))
                n += 1
        out.append('break; }')
    out.append('} } catch (const std::exception& e) { r.thrown = true; r.err = e.what(); } return r; }')
    out.append('void data_src(const sysif::Addr& a) override { c.data_ctxt_src_endpoint({a.ip, a.port}); }')
    out.append('void data_dst(const sysif::Addr& a) override { c.data_ctxt_dst_endpoint({a.ip, a.port}); }')
    out.append('std::string data_src() override { return c.data_ctxt_src_endpoint().to_string(); }')
    out.append('std::string data_dst() override { return c.data_ctxt_dst_endpoint().to_string(); }')
    out.append('int recv_fd() override { return c.data_ctxt_recv_socket().native_handle(); }')
    out.append('int send_fd() override { return c.data_ctxt_send_socket().native_handle(); }')
    out.append('void listen(int i, std::function<void(const pkt::PacketDesc&, void*)> f) override { switch (i) {')
    for i, (p, me) in enumerate(datas):
        out.append('case %d: if (f) c.register_%s_listener([f](%s::%s& x) { f(g_table[%d], &x); }); else c.register_%s_listener({}); break;' % (
            i, snake(p['name']), pk, p['name'], me, snake(p['name'])))
    out.append('} }')
    out.append('void send_data(int i, void* p) override { switch (i) {')
    for i, (p, me) in enumerate(datas):
        out.append('case %d: c.send_%s(*static_cast<%s::%s*>(p)); break;' % (i, snake(p['name']), pk, p['name']))
    out.append('} }')
    out.append('void enable_receive() override { c.enable_receive(); } void disable_receive() override { c.disable_receive(); } };')
    out.append('struct Ctee : sysif::ControlleeIf { %s::controllee::Controllee c;' % ns)
    if spec['sock'] == 'nats':
        out.append('explicit Ctee(const sysif::Addr& a) : c(a.ip, a.subject) { hook(); } void tcp_listen() override {} bool tcp_accept() override { return true; } int fd() override { return -1; }')
    else:
        out.append('explicit Ctee(const sysif::Addr& a) : c({a.ip, a.port}) { hook(); }')
        if spec['sock'] == 'tcp':
            out.append('void tcp_listen() override { if (!c.cmd_socket().listen()) throw std::runtime_error("listen failed"); } bool tcp_accept() override { return sysif::accepted([&] { return c.cmd_socket().accept(); }); }')
        else:
            out.append('void tcp_listen() override {} bool tcp_accept() override { return true; }')
        out.append('int fd() override { return c.cmd_socket().native_handle(); }')
    out.append('void hook() { c.vh_hook = [this](int cmd, bool exec, void* p, void* avx, void* as) {'
               ' if (handler) handler(cmd, exec, g_table[sys().cmds[cmd].pkt], p, avx, as); }; }')
    out.append('void listen() override { c.vrt_listen(); } sysif::System& sys(); };')
    out.append('sysif::System g_sys{"%s", sysif::%s, {}, {}, {}, nullptr, nullptr};' % (ns, spec['sock'].upper()))
    out.append('sysif::System& Ctee::sys() { return g_sys; }')
    out.append('struct Init { Init() {')
    for r in rows:
        out.append('g_table.push_back(%s());' % r)
    out.append('for (auto& d : g_table) { d.ops.d = &d; g_sys.table.push_back(&d); }')
    for i, (p, me, vx, s_) in enumerate(cmds):
        out.append('g_sys.cmds.push_back({%d,%d,%d});' % (me, vx, s_))
    for p, me in datas:
        out.append('g_sys.datas.push_back(%d);' % me)
    out.append('g_sys.controller = [](const sysif::Addr& a) -> sysif::ControllerIf* { return new Ctl(a); };')
    out.append('g_sys.controllee = [](const sysif::Addr& a) -> sysif::ControlleeIf* { return new Ctee(a); };')
    out.append('sysif::systems().push_back(&g_sys); sysif::all_systems().push_back(&g_sys); } } g_init;')
    out.append('} // namespace')
    return '\n'.join(out) + '\n'


def trailer_subs(p):
    subs = [S(n, 0, 19 - i, 1, 'e') for i, n in enumerate(TRAILER)]
    pos = 8
    for n, t in p['trailer']:
        if n == 'sample_frame':
            subs.append(S('sample_frame', 0, 11, 2, 't'))
        elif isinstance(t, list):
            bits = (len(t) - 1).bit_length()
            pos += bits
            subs.append(S(n, 0, pos - 1, bits, 'E'))
        else:
            subs.append(S(n, 0, pos, 1, 'e'))
            pos += 1
    subs.append(S('associated_context_packets_count', 0, 6, 7, 'a'))
    return subs


def main():
    out = sys.argv[1]
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, 'codecs.h'), 'w').write(codecs_h())
    for spec in build():
        text = yaml_of(spec)
        open(os.path.join(out, spec['ns'] + '.yaml'), 'w').write(restyle(text) if spec['ns'] in ('nt', 'np') else text)
        open(os.path.join(out, spec['ns'] + '_adapter.cpp'), 'w').write(adapter_cpp(spec))


if __name__ == '__main__':
    main()
