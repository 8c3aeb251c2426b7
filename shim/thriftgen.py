#!/usr/bin/env python3
"""A small stand-in for the thrift compiler: turns the interface files of /repo into
C++ types and clients that talk over the simulated network (shim/simnet.h).

  thriftgen.py OUTDIR FILE.thrift...

It writes OUTDIR/common/interface/gen-cpp2/<name>_types.h and
<Service>AsyncClient.h, and <Service>.h with a server interface to derive from.
"""
import os
import re
import sys

TOK = re.compile(r'''\s+|//[^\n]*|\#[^\n]*|/\*.*?\*/|("[^"]*"|'[^']*'|[A-Za-z_][\w.]*|-?0x[0-9A-Fa-f]+|-?\d+\.\d+|-?\d+|[{}()\[\]<>,;:=])''', re.S)
BASE = {'bool': 'bool', 'byte': 'int8_t', 'i8': 'int8_t', 'i16': 'int16_t', 'i32': 'int32_t', 'i64': 'int64_t',
        'double': 'double', 'float': 'float', 'string': 'std::string', 'binary': 'std::string', 'void': 'void'}


def tokens(text):
    pos, out = 0, []
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise SystemExit('thriftgen: bad text at %r' % text[pos:pos + 40])
        pos = m.end()
        if m.group(1):
            out.append(m.group(1))
    return out


class T:  # a type
    def __init__(self, kind, name=None, args=(), ann=None):
        self.kind, self.name, self.args, self.ann = kind, name, list(args), dict(ann or {})


class File:
    def __init__(self, path, files):
        self.name = os.path.basename(path)[:-len('.thrift')]
        self.files = files
        files[self.name] = self
        self.t = tokens(open(path, encoding='utf-8', errors='replace').read())
        self.i = 0
        self.ns = ''
        self.cppinc, self.inc, self.typedefs, self.enums, self.structs, self.services, self.consts = [], [], {}, {}, {}, {}, {}
        self.path = path
        self.parse()

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def want(self, x):
        if not self.eat(x):
            raise SystemExit('thriftgen: %s: want %r, have %r' % (self.path, x, self.t[self.i - 3:self.i + 3]))

    def anns(self):
        a = {}
        if self.eat('('):
            while not self.eat(')'):
                k = self.next()
                v = '1'
                if self.eat('='):
                    v = self.next().strip('"\'')
                a[k] = v
                self.eat(',')
        return a

    def type(self):
        n = self.next()
        if n in ('list', 'set'):
            self.want('<'); a = self.type(); self.want('>')
            return T(n, None, [a], self.anns())
        if n == 'map':
            self.want('<'); a = self.type(); self.want(','); b = self.type(); self.want('>')
            return T(n, None, [a, b], self.anns())
        return T('name', n, (), self.anns())

    def value(self):
        x = self.next()
        if x == '{':
            d = []
            while not self.eat('}'):
                k = self.value(); self.want(':'); d.append((k, self.value())); self.eat(',')
            return ('map', d)
        if x == '[':
            d = []
            while not self.eat(']'):
                d.append(self.value()); self.eat(',')
            return ('list', d)
        return x

    def parse(self):
        while self.peek() is not None:
            k = self.next()
            if k == 'namespace':
                lang, ns = self.next(), self.next()
                if lang == 'cpp':
                    self.ns = ns.replace('.', '::')
            elif k == 'cpp_include':
                self.cppinc.append(self.next().strip('"'))
            elif k == 'include':
                inc = os.path.join(os.path.dirname(self.path), self.next().strip('"'))
                n = os.path.basename(inc)[:-7]
                self.inc.append(n)
                if n not in self.files:
                    File(inc, self.files)
            elif k == 'typedef':
                t = self.type(); self.typedefs[self.next()] = t; self.eat(';')
            elif k == 'const':
                t = self.type(); n = self.next(); self.want('='); self.consts[n] = (t, self.value()); self.eat(';'); self.eat(',')
            elif k == 'enum':
                n = self.next(); self.want('{')
                vals, nxt = [], 0
                while not self.eat('}'):
                    v = self.next()
                    if self.eat('='):
                        nxt = int(self.next(), 0)
                    vals.append((v, nxt)); nxt += 1
                    self.eat(','); self.eat(';')
                self.enums[n] = (vals, self.anns())
            elif k in ('struct', 'union', 'exception'):
                n = self.next()
                self.want('{')
                fs = self.fields('}')
                self.structs[n] = (k, fs, self.anns())
            elif k == 'service':
                n = self.next()
                if self.eat('extends'):
                    self.next()
                self.want('{')
                ms = []
                while not self.eat('}'):
                    self.eat('oneway')
                    r = self.type(); m = self.next(); self.want('(')
                    a = self.fields(')')
                    if self.eat('throws'):
                        self.want('('); self.fields(')')
                    self.anns(); self.eat(';'); self.eat(',')
                    ms.append((m, r, a))
                self.services[n] = ms
            else:
                raise SystemExit('thriftgen: %s: %r' % (self.path, k))

    def fields(self, end):
        fs = []
        while not self.eat(end):
            fid = self.next(); self.want(':')
            req = ''
            if self.peek() in ('optional', 'required'):
                req = self.next()
            t = self.type(); n = self.next(); d = None
            if self.eat('='):
                d = self.value()
            a = self.anns()
            self.eat(','); self.eat(';')
            fs.append((int(fid), req, t, n, d, a))
        return fs

    def find(self, name):
        if '.' in name:
            f, n = name.split('.', 1)
            if f in self.files:
                return self.files[f], n
        return self, name

    def cpp(self, t):
        if t.kind != 'name':
            if 'cpp.type' in t.ann:
                return t.ann['cpp.type']
            tpl = t.ann.get('cpp.template', {'list': 'std::vector', 'set': 'std::set', 'map': 'std::map'}[t.kind])
            return '%s<%s>' % (tpl, ', '.join(self.cpp(a) for a in t.args))
        if 'cpp.type' in t.ann:
            return t.ann['cpp.type']
        if t.name in BASE:
            return BASE[t.name]
        f, n = self.find(t.name)
        if n in f.typedefs:
            return f.cpp(f.typedefs[n])
        for d in (f.enums, f.structs):
            if n in d:
                a = d[n][-1]
                return a.get('cpp.type') or '::%s::cpp2::%s' % (f.ns, n)
        raise SystemExit('thriftgen: unknown type %s in %s' % (t.name, self.path))

    def kind(self, t):
        """scalar, enum, or class"""
        if t.kind != 'name':
            return 'class'
        if t.name in BASE:
            return 'class' if t.name in ('string', 'binary') else 'scalar'
        f, n = self.find(t.name)
        if n in f.typedefs:
            return f.kind(f.typedefs[n])
        return 'enum' if n in f.enums else 'class'

    def uses(self, t, out):
        """the structs of this file a type needs complete"""
        for a in t.args:
            self.uses(a, out)
        if t.kind == 'name' and t.name not in BASE:
            f, n = self.find(t.name)
            if n in f.typedefs:
                f.uses(f.typedefs[n], out if f is self else set())
            elif f is self and n in self.structs:
                out.add(n)

    def lit(self, t, d):
        k = self.kind(t)
        c = self.cpp(t)
        if isinstance(d, tuple):
            if d[0] == 'map' and t.kind == 'name':
                f, n = self.find(t.name)
                fs = {x[3]: x for x in f.structs[n][1]}
                s = '[] { %s v; ' % c
                for kk, vv in d[1]:
                    fld = fs[kk.strip('"\'')]
                    s += 'v.set_%s(%s); ' % (fld[3], f.lit(fld[2], vv))
                return s + 'return v; }()'
            return '%s{%s}' % (c, ', '.join(self.lit(t.args[0], x) for x in d[1]))
        if k == 'enum':
            if re.match(r'-?\d', d):
                return 'static_cast<%s>(%s)' % (c, d)
            return '%s::%s' % (c, d.split('.')[-1])
        if d.startswith(('"', "'")):
            return '"%s"' % d[1:-1]
        return d


def gen_struct(f, n, fs, out):
    w = out.append
    w('struct %s {' % n)
    for fid, req, t, name, d, a in fs:
        init = '{}' if d is None else ' = ' + f.lit(t, d)
        if d is None and f.kind(t) == 'enum':
            init = ' = static_cast<%s>(0)' % f.cpp(t)
        w('    %s %s%s;' % (f.cpp(t), name, init))
    if fs:
        w('    struct Isset { ' + ' '.join('bool %s = false;' % x[3] for x in fs) + ' } __isset;')
    for fid, req, t, name, d, a in fs:
        c, k, opt = f.cpp(t), f.kind(t), req == 'optional'
        if opt:
            w('    const %s* get_%s() const { return __isset.%s ? &%s : nullptr; }' % (c, name, name, name))
            w('    %s* get_%s() { return __isset.%s ? &%s : nullptr; }' % (c, name, name, name))
            w('    ::apache::thrift::optional_field_ref<%s> %s_ref() { return {%s, __isset.%s}; }' % (c, name, name, name))
            w('    ::apache::thrift::optional_field_ref<const %s> %s_ref() const { return {%s, const_cast<bool&>(__isset.%s)}; }' % (c, name, name, name))
        else:
            if k == 'class':
                w('    const %s& get_%s() const & { return %s; }' % (c, name, name))
                w('    %s get_%s() && { return std::move(%s); }' % (c, name, name))
            else:
                w('    %s get_%s() const { return %s; }' % (c, name, name))
            w('    ::apache::thrift::field_ref<%s> %s_ref() { return {%s, __isset.%s}; }' % (c, name, name, name))
            w('    ::apache::thrift::field_ref<const %s> %s_ref() const { return {%s, const_cast<bool&>(__isset.%s)}; }' % (c, name, name, name))
        if k == 'class':
            w('    template <class U = %s> %s& set_%s(U&& v) { %s = std::forward<U>(v); __isset.%s = true; return %s; }' % (c, c, name, name, name, name))
        else:
            w('    %s& set_%s(%s v) { %s = v; __isset.%s = true; return %s; }' % (c, name, c, name, name, name))
    w('    bool operator==(const %s& o) const {' % n)
    w('        (void)o;')
    for fid, req, t, name, d, a in fs:
        if req == 'optional':
            w('        if (__isset.%s != o.__isset.%s || (__isset.%s && !(%s == o.%s))) return false;' % (name, name, name, name, name))
        else:
            w('        if (!(%s == o.%s)) return false;' % (name, name))
    w('        return true;')
    w('    }')
    w('    bool operator!=(const %s& o) const { return !(*this == o); }' % n)
    w('};')


def gen_union(f, n, fs, out):
    w = out.append
    w('struct %s {' % n)
    w('    enum class Type { __EMPTY__ = 0, ' + ', '.join('%s = %d' % (x[3], x[0]) for x in fs) + ' };')
    w('    Type type_ = Type::__EMPTY__;')
    for fid, req, t, name, d, a in fs:
        w('    %s %s_v{};' % (f.cpp(t), name))
    w('    Type getType() const { return type_; }')
    w('    void __clear() { *this = %s(); }' % n)
    for fid, req, t, name, d, a in fs:
        c = f.cpp(t)
        w('    const %s& get_%s() const { if (type_ != Type::%s) ::apache::thrift::bad_union_field(); return %s_v; }' % (c, name, name, name))
        w('    %s& mutable_%s() { if (type_ != Type::%s) ::apache::thrift::bad_union_field(); return %s_v; }' % (c, name, name, name))
        w('    %s& set_%s(%s v) { *this = %s(); type_ = Type::%s; %s_v = std::move(v); return %s_v; }' % (c, name, c, n, name, name, name))
    w('    bool operator==(const %s& o) const { return type_ == o.type_%s; }' % (n, ''.join(' && %s_v == o.%s_v' % (x[3], x[3]) for x in fs)))
    w('    bool operator!=(const %s& o) const { return !(*this == o); }' % n)
    w('};')


def gen(f, outdir):
    d = os.path.join(outdir, 'common/interface/gen-cpp2')
    os.makedirs(d, exist_ok=True)
    out = []
    w = out.append
    w('// made by thriftgen.py from %s.thrift' % f.name)
    w('#pragma once')
    w('#include <map>\n#include <memory>\n#include <set>\n#include <string>\n#include <unordered_map>\n#include <unordered_set>\n#include <vector>')
    w('#include <simthrift.h>')
    heads = []
    for x in f.cppinc:
        m = re.match(r'(common/datatypes/\w+)Ops\.inl$', x)
        x = m.group(1) + '.h' if m else x
        if x not in heads:
            heads.append(x)
    for x in heads:
        w('#include "%s"' % x)
    for x in f.inc:
        w('#include "common/interface/gen-cpp2/%s_types.h"' % x)
    w('namespace %s { namespace cpp2 {' % f.ns)
    mine = {n: s for n, s in f.structs.items() if 'cpp.type' not in s[2]}
    for n, (vals, a) in f.enums.items():
        if 'cpp.type' in a:
            continue
        w('enum class %s { %s };' % (n, ', '.join('%s = %d' % v for v in vals)))
    for n in mine:
        w('struct %s;' % n)
    done, todo = set(), list(mine)

    def emit(n, path=()):
        if n in done or n not in mine:
            return
        if n in path:
            raise SystemExit('thriftgen: recursive struct ' + n)
        need = set()
        for x in mine[n][1]:
            f.uses(x[2], need)
        for m in sorted(need):
            if m != n:
                emit(m, path + (n,))
        done.add(n)
        (gen_union if mine[n][0] == 'union' else gen_struct)(f, n, mine[n][1], out)
    for n in todo:
        emit(n)
    w('} }')
    w('namespace apache { namespace thrift {')
    for n, (vals, a) in f.enums.items():
        if 'cpp.type' in a:
            continue
        w('template <> struct TEnumTraits<::%s::cpp2::%s> { static const char* findName(::%s::cpp2::%s v) { switch (static_cast<int>(v)) {' % (f.ns, n, f.ns, n))
        seen = set()
        for v, x in vals:
            if x not in seen:
                w('    case %d: return "%s";' % (x, v))
            seen.add(x)
        w('    } return nullptr; } };')
    w('} }')
    put(os.path.join(d, f.name + '_types.h'), out)
    for n, ms in f.services.items():
        out = ['// made by thriftgen.py from %s.thrift' % f.name, '#pragma once',
               '#include "common/interface/gen-cpp2/%s_types.h"' % f.name, '#include <simnet.h>',
               'namespace %s { namespace cpp2 {' % f.ns,
               'class %sAsyncClient {' % n, 'public:',
               '    explicit %sAsyncClient(std::unique_ptr<::apache::thrift::HeaderClientChannel> c) : channel_(std::move(c)) {}' % n,
               '    explicit %sAsyncClient(std::shared_ptr<::apache::thrift::RequestChannel> c) : channel_(std::move(c)) {}' % n,
               '    virtual ~%sAsyncClient() {}' % n,
               '    ::apache::thrift::RequestChannel* getChannel() { return channel_.get(); }']
        srv = []
        disp = []
        for m, r, a in ms:
            if len(a) != 1:
                continue
            rc, ac = f.cpp(r), f.cpp(a[0][2])
            out.append('    virtual ::folly::Future<%s> future_%s(const %s& req) { return ::simnet::call<%s, %s>(channel_, "%s.%s", req).toUnsafeFuture(); }' % (rc, m, ac, ac, rc, n, m))
            out.append('    virtual ::folly::SemiFuture<%s> semifuture_%s(const %s& req) { return ::simnet::call<%s, %s>(channel_, "%s.%s", req); }' % (rc, m, ac, ac, rc, n, m))
            srv.append('    virtual void %s(%s& resp, const %s& req) { (void)resp; (void)req; ::simnet::unimplemented("%s.%s"); }' % (m, rc, ac, n, m))
            disp.append('        if (method == "%s.%s") { auto resp = std::make_shared<%s>(); %s(*resp, *static_cast<const %s*>(req)); return resp; }' % (n, m, rc, m, ac))
        out += ['protected:', '    std::shared_ptr<::apache::thrift::RequestChannel> channel_;', '};',
                'class %sSvIf : public ::simnet::Handler {' % n, 'public:'] + srv
        out += ['    std::shared_ptr<void> dispatch(const std::string& method, const void* req) override {'] + disp
        out += ['        ::simnet::unimplemented(method.c_str()); return nullptr;', '    }', '};', '} }']
        put(os.path.join(d, n + 'AsyncClient.h'), out)


def put(path, lines):
    s = '\n'.join(lines) + '\n'
    try:
        if open(path).read() == s:
            return
    except OSError:
        pass
    tmp = path + '.tmp%d' % os.getpid()
    open(tmp, 'w').write(s)
    os.replace(tmp, path)


def idl_type(f, t):
    if t.kind != 'name':
        return {'list': 'L', 'set': 'T', 'map': 'M'}[t.kind] + ''.join(idl_type(f, a) for a in t.args)
    if t.name in BASE:
        return {'bool': 'b', 'byte': '1', 'i8': '1', 'i16': '2', 'i32': '4', 'i64': '8', 'double': 'd', 'float': 'f', 'string': 's', 'binary': 's', 'void': 'v'}[t.name]
    g, n = f.find(t.name)
    if n in g.typedefs:
        return idl_type(g, g.typedefs[n])
    if n in g.enums:
        return 'E%s;' % n
    return 'S%s;' % n


def idl(files, outdir):
    """the interface itself, as a table: for peers that speak by it alone"""
    out = ['R"IDL(']
    for f in files.values():
        if f.name not in ('common', 'graph'):
            continue
        for n, (vals, a) in f.enums.items():
            out.append('enum %s' % n)
            out += ['%d %s' % (v, k) for k, v in vals]
        for n, (k, fs, a) in f.structs.items():
            out.append('%s %s' % (k, n))
            out += ['%d %s %s %s' % (x[0], x[1] or '-', idl_type(f, x[2]), x[3]) for x in fs]
    out.append(')IDL"')
    os.makedirs(outdir, exist_ok=True)
    put(os.path.join(outdir, 'idl.inc'), out)


def main():
    outdir, files = sys.argv[1], {}
    for p in sys.argv[2:]:
        if p.startswith('+'):
            continue
        if os.path.basename(p)[:-7] not in files:
            File(p, files)
    for f in files.values():
        gen(f, outdir)
    for p in sys.argv[2:]:
        if p.startswith('+') and os.path.basename(p)[:-7] not in files:
            File(p[1:], files)
    idl(files, outdir)


if __name__ == '__main__':
    main()
