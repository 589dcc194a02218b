"""Turns the generated Controllee skeleton into a user's controllee: the stub bodies of the handlers are replaced by a
call of the harness, exactly where the skeleton says the packet handling is to be implemented.

usage: controllee.py SPEC_NS GENERATED_DIR OUT.h
"""
import re
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import emit


def find_close(s, i):
    depth = 0
    while True:
        if s[i] == '{':
            depth += 1
        elif s[i] == '}':
            depth -= 1
            if depth == 0:
                return i
        i += 1


def handlers(spec):
    out = {}
    ci = 0
    for p in spec['packets']:
        if p['kind'] != 'command':
            continue
        sn, n, r = emit.snake(p['name']), p['name'], p['reqs']
        if r['v']:
            out['validate_' + sn] = (ci, n, False, True, False)
        if p['cam']['action'] == 'none':
            if r['s']:
                out['execute_' + sn] = (ci, n, True, False, True)
        elif r['x'] or r['s']:
            out['execute_' + sn] = (ci, n, True, bool(r['x']), bool(r['s']))
        ci += 1
    return out


def body(h):
    ci, n, ex, avx, a_s = h
    L = ['{']
    if avx:
        L.append('auto ack_x = %sAckVX{};' % n)
    if a_s:
        L.append('auto ack_s = %sAckS{};' % n)
    L.append('if (vh_hook) vh_hook(%d, %s, &packet, %s, %s);' % (ci, 'true' if ex else 'false',
                                                              '&ack_x' if avx else 'nullptr', '&ack_s' if a_s else 'nullptr'))
    L.append('return %s;' % ('{ ack_x, ack_s }' if avx and a_s else 'ack_x' if avx else 'ack_s'))
    return ' '.join(L + ['}'])


def transform(ns, src):
    """the user's edit of the skeleton; None when the skeleton no longer has the documented handler functions"""
    spec = [s for s in emit.build() if s['ns'] == ns][0]
    hs = handlers(spec)
    found = set()
    i = 0
    while True:
        m = re.compile(r'\b((?:validate|execute)_\w+)\s*\(\s*(?:[\w:]+::)?\w+\s*&\s*(\w*)\s*\)[^;{}]*\{').search(src, i)
        if not m:
            break
        name = m.group(1)
        o = m.end() - 1
        c = find_close(src, o)
        if name in hs:
            found.add(name)
            head = src[:o]
            if m.group(2) != 'packet':  # give the parameter the name the body uses
                head = src[:m.start(2)] + 'packet' + src[m.end(2):o]
            new = body(hs[name])
            src = head + new + src[c + 1:]
            i = len(head) + len(new)
        else:
            i = c
    if found != set(hs):
        return None
    m = re.search(r'class\s+Controllee\b[^;{]*\{', src)
    if not m:
        return None
    src = src[:m.end()] + '\npublic:\n std::function<void(int, bool, void*, void*, void*)> vh_hook;\nprivate:\n' + src[m.end():]
    return '#include <functional>\n' + src


def derive(ns, nats):
    """fallback: derive from Controllee_base directly"""
    spec = [s for s in emit.build() if s['ns'] == ns][0]
    L = ['#pragma once', '#include <functional>', '#include <Controllee_base.hpp>', 'namespace %s::controllee {' % ns,
         'class Controllee : public Controllee_base {', 'public:', 'std::function<void(int, bool, void*, void*, void*)> vh_hook;',
         'using Controllee_base::Controllee_base;',
         'template <class T> static void vh_stop(T& t) { if constexpr (requires { t.vrt_stop(); }) t.vrt_stop(); }',
         '~Controllee() override { vh_stop(*this); }']
    for name, h in handlers(spec).items():
        n = h[1]
        ret = 'std::tuple<%sAckVX, %sAckS>' % (n, n) if h[3] and h[4] else n + ('AckVX' if h[3] else 'AckS')
        L.append('auto %s(%s& packet) -> %s override %s' % (name, n, ret, body(h)))
    L += ['};', '}']
    return '\n'.join(L) + '\n'


if __name__ == '__main__':
    ns, d, out = sys.argv[1:4]
    src = open(os.path.join(d, 'include', 'Controllee.hpp')).read()
    t = transform(ns, src)
    if t is None:
        t = derive(ns, ns == 'nn')
    open(out, 'w').write(t)
