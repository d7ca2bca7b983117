"""Field positions as printed by the Cap'n Proto compiler itself (capnp compile -ocapnp): the oracle for where
things are, independent of capnpy's own compiler."""
import os
import re
import subprocess

RE_STRUCT = re.compile(r'^struct (\w+) @0x\w+(?: (.*))?\s*\{\s*# (\d+) bytes, (\d+) ptrs')
RE_ENUM = re.compile(r'^enum (\w+) @0x\w+(?: .*)?\s*\{')
RE_FIELD = re.compile(r'^(\w+) @(\d+) :([\w.]+(?:\([\w.()]*\))*)(?: = (.*?))?(?: \$.*?)?;\s*# (.*)$')
RE_GROUP = re.compile(r'^(\w+) :group(?: \$.*?)? \{(?:\s*# union tag = (\d+))?')
RE_UNION = re.compile(r'^(?:(\w+) :)?union(?: \$.*?)? \{(?:\s*# (.*))?$')
RE_ENUMERANT = re.compile(r'^(\w+) @(\d+)')


def parse(text):
    top = {'kind': 'file', 'structs': {}, 'enums': {}}
    stack = [top]
    for line in text.splitlines():
        line = re.sub(r'import "[^"]*"\.', '', line.strip())
        if not line or line.startswith('#') or line.startswith('@') or line.startswith('using') or \
                line.startswith('annotation') or line.startswith('$') or line.startswith('const'):
            continue
        cur = stack[-1]
        if line == '}' or line.startswith('}'):
            stack.pop()
            continue
        m = RE_STRUCT.match(line)
        if m:
            s = {'kind': 'struct', 'name': m.group(1), 'data': int(m.group(3)) // 8, 'ptrs': int(m.group(4)),
                 'fields': [], 'structs': {}, 'enums': {}, 'union': None}
            cur['structs'][m.group(1)] = s
            stack.append(s)
            continue
        m = RE_ENUM.match(line)
        if m:
            e = {'kind': 'enum', 'members': {}}
            cur['enums'][m.group(1)] = e
            stack.append(e)
            continue
        if cur['kind'] == 'enum':
            m = RE_ENUMERANT.match(line)
            cur['members'][int(m.group(2))] = m.group(1)
            continue
        m = RE_UNION.match(line)
        if m:
            c = m.group(2) or ''
            t = re.search(r'tag bits \[(\d+), (\d+)\)', c)
            ut = re.search(r'union tag = (\d+)', c)
            if m.group(1):
                u = {'kind': 'group', 'name': m.group(1), 'fields': [], 'union': int(t.group(1)) if t else None,
                     'tag': int(ut.group(1)) if ut else None, 'members_in_union': True}
                cur['fields'].append(u)
                stack.append(u)
            else:
                cur['union'] = int(t.group(1))
                stack.append({'kind': 'anon', 'fields': cur['fields'], 'structs': {}, 'enums': {}})
            continue
        m = RE_GROUP.match(line)
        if m:
            g = {'kind': 'group', 'name': m.group(1), 'fields': [], 'union': None,
                 'tag': int(m.group(2)) if m.group(2) else None}
            cur['fields'].append(g)
            stack.append(g)
            continue
        m = RE_FIELD.match(line)
        if m:
            name, ordn, typ, default, c = m.groups()
            f = {'kind': 'slot', 'name': name, 'type': typ, 'default': default, 'tag': None}
            b = re.search(r'bits\[(\d+), (\d+)\)', c)
            p = re.search(r'ptr\[(\d+)\]', c)
            t = re.search(r'union tag = (\d+)', c)
            if b:
                f['bit'] = int(b.group(1))
                f['width'] = int(b.group(2)) - int(b.group(1))
            if p:
                f['ptr'] = int(p.group(1))
            if t:
                f['tag'] = int(t.group(1))
            cur['fields'].append(f)
            continue
        raise ValueError('cannot parse the output of capnp: %r' % line)
    assert len(stack) == 1
    return {'structs': top['structs'], 'enums': top['enums']}


def layout(fn, paths):
    cmd = ['capnp', 'compile', '-ocapnp'] + ['-I' + p for p in paths] + [fn]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise ValueError(p.stderr.decode())
    return parse(p.stdout.decode())


def request(fn, paths):
    """the message which capnp passes to the compiler of the schema"""
    p = subprocess.run(['capnp', 'compile', '-o-'] + ['-I' + p for p in paths] + [os.path.basename(fn)],
                       cwd=os.path.dirname(fn), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise ValueError(p.stderr.decode())
    return p.stdout


if __name__ == '__main__':
    import sys
    import pprint
    pprint.pprint(layout(sys.argv[1], sys.argv[2:]))
