"""Specifications and command lines the simulated generator runs on; every one is drawn from a number."""
import random

CIF0 = ['reference_point_id', 'bandwidth', 'if_ref_frequency', 'rf_ref_frequency', 'rf_ref_frequency_offset', 'if_band_offset', 'reference_level',
        'gain', 'over_range_count', 'sample_rate', 'timestamp_adjustment', 'timestamp_calibration_time', 'temperature', 'device_id',
        'signal_data_format', 'formatted_gps', 'formatted_ins', 'ecef_ephemeris', 'relative_ephemeris', 'ephemeris_ref_id', 'gps_ascii',
        'context_association_lists', 'state_event_indicators']
CIF1 = ['phase_offset', 'polarization', 'spatial_scan_type', 'beam_width', 'range', 'ebno_ber', 'threshold', 'compression_point', 'intercept_points',
        'snr_noise_figure', 'aux_frequency', 'aux_gain', 'aux_bandwidth', 'spectrum', 'v49_spec_compliance', 'version_information', 'buffer_size']
CIF2 = ['bind', 'cited_sid', 'sibling_sids', 'parents_sid', 'children_sids', 'cited_message_id', 'controllee_id', 'information_source', 'track_id',
        'country_code', 'operator_id', 'platform_class', 'platform_instance', 'platform_display', 'ems_device_class', 'ems_device_instance',
        'modulation_type', 'function_id', 'event_id', 'function_priority_id', 'communication_priority_id', 'rf_footprint', 'rf_footprint_range']
CIF2_OK = ['bind', 'cited_message_id', 'platform_class', 'platform_instance', 'platform_display', 'modulation_type', 'ems_device_instance',
           'function_priority_id', 'communication_priority_id']


def snake(n):
    out = n[0].lower()
    for c in n[1:]:
        out += '_' + c.lower() if c.isupper() else c
    return out


def cif(r, n, names, most):
    pick = [x for x in names if r.random() < r.choice([0.1, 0.3, 0.6])][:most] or [r.choice(names)]
    return ['  cif_%d: !CIF%d' % (n, n)] + ['    %s: %s' % (x, r.choice(['optional', 'required'])) for x in pick]


def prologue(r, code):
    l = []
    if r.random() < 0.7:
        l.append('  stream_id: !StreamID')
    l += ['  class_id: !ClassID', '    oui: %s' % r.choice(['FF-EE-DD', '12-34-56']), '    packet_code: 0x%04X' % code]
    t = r.choice(['', 'utc', 'gps', 'utc+', 'gps+'])
    if t:
        l += ['  timestamp: !Timestamp', '    integer: ' + t.rstrip('+')]
        if t.endswith('+'):
            l.append('    fractional: picoseconds')
    return l


def data(r, name, code):
    l = [name + ': !Data'] + prologue(r, code)
    if r.random() < 0.5:
        l += ['  trailer: !Trailer', '    sample_frame: optional', '    user_defined_flag: enable_indicator', '    user_defined_other: enable_indicator']
    return l


def context(r, name, code):
    l = [name + ': !Context'] + prologue(r, code) + cif(r, 0, CIF0, 12)
    if r.random() < 0.4:
        l += cif(r, 1, CIF1, 8)
        if r.random() < 0.4:
            l += ['    discrete_io_32: !DiscreteIO32', '      mode: optional', '      switchfield: bool', '      stream_enable: enable_indicator', '      anint: !!int 8']
    if r.random() < 0.3:
        l += cif(r, 2, CIF2_OK, 6)
    return l


def control(r, name, code):
    l = [name + ': !Control'] + prologue(r, code)
    l += ['  cam: !ControlAcknowledgeMode', '    action_mode: execute']
    for x in ('req_v', 'req_x', 'req_s'):
        v = r.choice(['', 'optional', 'true'])
        if v:
            l.append('    %s: %s' % (x, v))
    l.append('    permit_warnings: true')
    if r.random() < 0.6:
        l.append('  controllee_id: ' + r.choice(['word', 'uuid']))
    if r.random() < 0.6:
        l.append('  controller_id: ' + r.choice(['word', 'uuid']))
    return l + cif(r, 0, CIF0, 8)


def ack(r, name, of):
    return [name + ': !Ack', '  responds_to: ' + of]


NAMES = ['Alpha', 'Burst', 'Cal', 'DopplerShift', 'Extra', 'Fast', 'Gate', 'Hold']


def packets(r, n):
    """[(name, lines)]"""
    out = []
    for i, name in enumerate(r.sample(NAMES, n)):
        k = r.choice(['data', 'context', 'control'])
        code = 0x1000 + r.randrange(0x800) * 4
        if k == 'data':
            out.append((name + 'Data', data(r, name + 'Data', code)))
        elif k == 'context':
            out.append((name + 'Context', context(r, name + 'Context', code)))
        else:
            out.append((name, control(r, name, code)))
            if r.random() < 0.8:
                out.append((name + 'Ack', ack(r, name + 'Ack', name)))
    return out


def text(pk, r=None):
    s = '\n'.join('\n'.join(l) for _, l in pk) + '\n'
    if r is not None and r.random() < 0.4:
        s = '# caf\u00e9 \u2014 a comment that is not ASCII\n' + s
    if r is not None and r.random() < 0.2:
        s = '.hidden: 5\n' + s
    if r is not None and r.random() < 0.3:
        s = '---\n' + s
    return s


def make(cid):
    """A case: files, command line, and the output files it must produce."""
    r = random.Random('case %d' % cid)
    kind = ['plain', 'plain', 'multi', 'info', 'info', 'include', 'here', 'self', 'codes'][cid % 9]
    socket = r.choice(['tcp', 'udp', 'nats'])
    c = {'id': cid, 'kind': kind, 'files': {}, 'cwd': 'work', 'out': 'work/out', 'must': []}
    pk = packets(r, r.randint(1, 3))
    opts = ['--dir', 'out']
    if r.random() < 0.5:
        opts += ['--namespace', r.choice(['vita', 'a::b'])]
    hx, sx = 'hpp', 'cpp'
    if kind == 'plain' and r.random() < 0.4:
        hx, sx = 'hh', 'cc'
        opts += ['--header-ext', hx, '--source-ext', sx]

    def expect(names, base):
        for n in names:
            c['must'] += [base[0] + '/' + snake(n) + '.' + hx, base[1] + '/' + snake(n) + '.' + sx]

    flat = ('work/out', 'work/out')
    proj = ('work/out/include/packets', 'work/out/src/packets')
    if kind == 'plain':
        c['files']['work/spec.yaml'] = text(pk, r)
        c['argv'] = ['cpp'] + opts + ['spec.yaml']
        expect([n for n, _ in pk], flat)
    elif kind == 'multi':
        a = packets(r, 1)
        b = [p for p in pk if p[0] not in [x[0] for x in a]] or [('OnlyData', data(r, 'OnlyData', 0x4444))]
        b = [p for p in b if not (p[0].endswith('Ack') and p[0][:-3] not in [x[0] for x in b])]
        c['files']['work/one.yaml'] = text(a, r)
        c['files']['work/sub/two.yaml'] = text(b, r)
        c['argv'] = ['cpp'] + opts + ['one.yaml', 'sub/two.yaml']
        expect([n for n, _ in a + b], flat)
    elif kind in ('info', 'include', 'self', 'codes'):
        inc = kind != 'info'
        body = []
        where = 'work/spec.yaml'
        arg = 'spec.yaml'
        project = inc or r.random() < 0.5
        if kind == 'self':
            where, arg, project = 'work/out/yaml/spec.yaml', 'out/yaml/spec.yaml', True
        if inc:
            k = r.randint(1, len(pk))
            while k < len(pk) and pk[k][0].endswith('Ack'):
                k += 1
            c['files']['work/parts/first.yaml'] = text(pk[:k], r)
            body += ['include:', "  - 'parts/first.yaml'"]
            if pk[k:]:
                c['files']['work/parts/second.yaml'] = text(pk[k:], r)
                body.append("  - 'parts/second.yaml'")
        else:
            body.append(text(pk, r).rstrip('\n'))
        code = ['  code: 1'] if kind == 'codes' or r.random() < 0.3 else []
        body += ['Station: !InformationClass'] + code + ['  packet_classes:'] + ['    - ' + n for n, _ in pk]
        if kind == 'codes':
            # the same packets under a second information class
            body += ['Other: !InformationClass', '  code: 5', '  packet_classes:'] + ['    - ' + n for n, _ in pk[:1]]
        c['files'][where] = '\n'.join(body) + '\n'
        early = project and r.random() < 0.4      # the option before the generator's name
        c['argv'] = (['-p'] if early else []) + (['-v'] if r.random() < 0.2 else []) + ['cpp'] + opts + ['--cmd-socket', socket] + (['--project'] if project and not early else []) + [arg]
        c['project'] = project
        expect([n for n, _ in pk], proj if project else flat)
        b = 'work/out/include/' if project else 'work/out/'
        c['must'] += [b + x for x in ('Controller.hpp', 'Controllee_base.hpp', 'Controllee.hpp')]
        if project:
            c['must'] += ['work/out/CMakeLists.txt', 'work/out/src/CMakeLists.txt', 'work/out/src/bin/CMakeLists.txt', 'work/out/src/bin/main.cpp',
                          'work/out/src/packets/CMakeLists.txt', 'work/out/yaml/spec.yaml']
            c['must'] += ['work/out/yaml/' + x.split('/')[-1] for x in c['files'] if '/parts/' in x]
        c['packets'] = [n for n, _ in pk]
    elif kind == 'here':
        c['files']['work/spec.yaml'] = text(pk, r)
        c['argv'] = ['cpp', 'spec.yaml']
        c['out'] = 'work'
        expect([n for n, _ in pk], ('work', 'work'))
    return c


def damage(c, r):
    """The same command with an input that cannot be read or understood: (case, what)."""
    d = dict(c, files=dict(c['files']), argv=list(c['argv']))
    names = sorted(d['files'])
    f = r.choice(names)
    t = d['files'][f]
    lines = t.split('\n')
    k = r.randrange(15)
    if k == 0:
        del d['files'][f]
        return d, 'missing file ' + f
    if k == 1:
        d['files'][f] = t + 'broken: [1, 2\n'
        return d, 'syntax error in ' + f
    if k == 2:
        d['files'][f] = t + 'Odd: !NoSuchPacket\n  stream_id: true\n'
        return d, 'unknown tag in ' + f
    if k == 3:
        d['files'][f] = '- a\n- b\n'
        return d, 'a list instead of packets in ' + f
    if k == 4:
        d['files'][f] = ''
        return d, 'empty file ' + f
    if k == 5:
        d['files'][f] = None
        return d, 'a directory instead of ' + f
    if k == 6:
        d['files'][f] = b'\xff\xfe\xfa' + t.encode()
        return d, 'bytes that are no text in ' + f
    if k == 7:
        d['files'][f] = t + 'Late: !Ack\n  responds_to: Nobody\n'
        return d, 'acknowledges an unknown packet in ' + f
    if k == 8:
        d['argv'] = ['nosuch' if x == 'cpp' else x for x in d['argv']]
        return d, 'unknown backend'
    if k == 9:
        d['argv'] = d['argv'] + ['--no-such-option']
        return d, 'unknown option'
    if k == 10:
        d['argv'] = d['argv'] + ['absent.yaml']
        return d, 'one more input, which does not exist'
    if k == 11:
        d['files'][f] = t + "include: 'x.yaml'\n"
        return d, 'include is no list in ' + f
    if k == 12:
        d['files'][f] = t + "include:\n  - 'absent.yaml'\n"
        return d, 'included file does not exist in ' + f
    if k == 13 and 'packets' in c:
        d['files'] = {n: x.replace('  packet_classes:\n', '  packet_classes:\n    - Nobody\n') for n, x in d['files'].items()}
        return d, 'information class with an unknown packet'
    # a field that does not exist, in the last packet of the file
    at = [i for i, l in enumerate(lines) if l and not l[0].isspace() and ': !' in l and '!Info' not in l and '!Ack' not in l]
    if at:
        i = r.choice(at)
        lines.insert(i + 1, '  no_such_field: required')
        d['files'][f] = '\n'.join(lines)
        return d, 'unknown field in ' + f
    d['files'][f] = t + '\tx\n'
    return d, 'tab in ' + f
