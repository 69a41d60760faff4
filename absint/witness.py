"""M05, B08: type-level witnesses.

Every obligation is a pair of programs over the public interface: one that
would modify (or copy) what the interface must only show, and a control that
differs from it only in not doing so. Both are given to the compiler's
semantic analysis with the headers of the working tree (nothing is generated
or run). The obligation holds when the first is rejected and the control is
accepted; it is broken when the first is accepted; it is undecided when the
control is rejected too (then the rejection says nothing)."""
import os
import re
import subprocess
from .check import CLANG, Broken

HARNESS = []

HEAD = '''
#include <algorithm>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include "gmlc/containers/MappedVector.hpp"
#include "gmlc/containers/StringMappedVector.hpp"
#include "gmlc/containers/DualMappedVector.hpp"
#include "gmlc/containers/DualStringMappedVector.hpp"
#include "gmlc/containers/MappedPointerVector.hpp"
#include "gmlc/containers/DualMappedPointerVector.hpp"
#include "gmlc/containers/StableBlockVector.hpp"
#include "gmlc/containers/StableBlockDeque.hpp"
#include "gmlc/containers/SimpleQueue.hpp"
#include "gmlc/containers/BlockingQueue.hpp"
#include "gmlc/containers/BlockingPriorityQueue.hpp"
#include "gmlc/containers/AirLock.hpp"
#include "gmlc/containers/WorkQueue.hpp"
using namespace gmlc::containers;
// assignment and modification only of lvalues, so that changing a copy that
// the interface hands out is not taken for changing the element
struct Elem {
    int v = 0;
    Elem() = default;
    explicit Elem(int x): v(x) {}
    Elem(const Elem&) = default;
    Elem(Elem&&) = default;
    Elem& operator=(const Elem&) & = default;
    Elem& operator=(Elem&&) & = default;
    void change() & {}
    void look() const {}
};
'''

ST = 'reference_stability::stable'
# name, type, a search term of it
VALUE = [
    ('MappedVector', 'MappedVector<Elem, int>', '1'),
    ('MappedVector (strings)', 'MappedVector<Elem, std::string>', 'std::string("t")'),
    ('MappedVector (stable)', 'MappedVector<Elem, int, %s>' % ST, '1'),
    ('StringMappedVector', 'StringMappedVector<Elem>', '"t"'),
    ('StringMappedVector (stable)', 'StringMappedVector<Elem, %s>' % ST, '"t"'),
    ('DualMappedVector', 'DualMappedVector<Elem, int, std::string>', '1'),
    ('DualMappedVector (stable)', 'DualMappedVector<Elem, int, std::string, %s>' % ST, '1'),
    ('DualStringMappedVector', 'DualStringMappedVector<Elem, int>', '1'),
    ('DualStringMappedVector (stable)', 'DualStringMappedVector<Elem, int, %s>' % ST, '1'),
]
POINTER = [
    ('MappedPointerVector', 'MappedPointerVector<Elem, int>', '1'),
    ('MappedPointerVector (strings)', 'MappedPointerVector<Elem, std::string>', 'std::string("t")'),
    ('DualMappedPointerVector', 'DualMappedPointerVector<Elem, int, std::string>', '1'),
]
NOCOPY = [
    ('SimpleQueue', 'SimpleQueue<int>'),
    ('BlockingQueue', 'BlockingQueue<int>'),
    ('BlockingPriorityQueue', 'BlockingPriorityQueue<int>'),
    ('WorkQueue', 'WorkQueue'),
    ('WorkBlock', 'WorkBlock<int>'),
    ('WorkBlock<void>', 'WorkBlock<void>'),
    ('AirLock', 'AirLock<int>'),
    ('MappedPointerVector', 'MappedPointerVector<Elem, int>'),
    ('DualMappedPointerVector', 'DualMappedPointerVector<Elem, int, std::string>'),
]
BLOCK = [
    ('StableBlockVector', 'StableBlockVector<Elem, 2>'),
    ('StableBlockVector (N=0)', 'StableBlockVector<Elem, 0>'),
    ('StableBlockDeque', 'StableBlockDeque<Elem, 2>'),
    ('StableBlockDeque (N=0)', 'StableBlockDeque<Elem, 0>'),
]
M, K = 'C& c', 'const C& c'


def w(prop, rule, name, ty, member, what, bad, good):
    """bad, good: (parameter list, statements)"""
    return dict(prop=prop, rule=rule, name=name, ty=ty, member=member, what=what, bad=bad, good=good)


def iteration(prop, n, t, which=((M, 'a'), (K, 'a constant'))):
    for par, adj in which:
        yield w(prop, 'constant iteration', n, t, 'begin', 'an element of %s container can be assigned through *begin()' % adj,
                (par, '*c.begin() = Elem(1);'), (par, 'Elem e(*c.begin()); (void)e;'))
        yield w(prop, 'constant iteration', n, t, 'begin', 'an element of %s container can be modified through begin()->' % adj,
                (par, 'c.begin()->change();'), (par, 'c.begin()->look();'))
        yield w(prop, 'constant iteration', n, t, 'begin', 'a range for over %s container gives elements that can be modified' % adj,
                (par, 'for (Elem& e: c) e.change();'), (par, 'for (const Elem& e: c) e.look();'))
        yield w(prop, 'constant iteration', n, t, 'begin', 'a named iterator from begin() of %s container modifies the element' % adj,
                (par, 'auto it = c.begin(); ++it; it->change();'), (par, 'auto it = c.begin(); ++it; it->look();'))
        yield w(prop, 'constant iteration', n, t, 'begin', 'the result of it++ from begin() of %s container modifies the element' % adj,
                (par, 'auto it = c.begin(); (*it++).change();'), (par, 'auto it = c.begin(); (*it++).look();'))
        yield w(prop, 'constant iteration', n, t, 'begin', 'the result of begin() + 1 of %s container modifies the element' % adj,
                (par, '(*(c.begin() + 1)).change();'), (par, '(*(c.begin() + 1)).look();'))
        yield w(prop, 'constant iteration', n, t, 'end', 'stepping back from end() of %s container gives an element that can be modified' % adj,
                (par, 'auto it = c.end(); --it; (*it).change();'), (par, 'auto it = c.end(); --it; (*it).look();'))


def witnesses(prop):
    if prop == 'M05':
        for n, t, k in VALUE:
            yield from iteration('M05', n, t)
            yield w('M05', 'constant iteration', n, t, 'begin', 'the constant iterator from begin() turns into a modifiable one',
                    (M, 'decltype(c.find(%s)) it(c.begin()); (void)it;' % k), (M, 'decltype(std::as_const(c).find(%s)) it(c.begin()); (void)it;' % k))
            yield w('M05', 'constant access', n, t, 'find', 'find on a constant container gives an element that can be modified',
                    (K, '(*c.find(%s)).change();' % k), (K, '(*c.find(%s)).look();' % k))
            yield w('M05', 'constant access', n, t, 'find', 'find on a constant container gives a pointer that can modify the element',
                    (K, 'c.find(%s)->change();' % k), (K, 'c.find(%s)->look();' % k))
            yield w('M05', 'constant access', n, t, 'operator[]', 'operator[] on a constant container gives an element that can be modified',
                    (K, 'c[0].change();'), (K, 'c[0].look();'))
            yield w('M05', 'constant access', n, t, 'at', 'at on a constant container gives an element that can be modified',
                    (K, 'c.at(0).change();'), (K, 'c.at(0).look();'))
            yield w('M05', 'constant access', n, t, 'back', 'back on a constant container gives an element that can be modified',
                    (K, 'c.back().change();'), (K, 'c.back().look();'))
            yield w('M05', 'constant access', n, t, 'apply', 'apply on a constant container hands out elements that can be modified',
                    (K, 'c.apply([](Elem& e) { e.change(); });'), (M, 'c.apply([](const Elem& e) { e.look(); });'))
            for m, a in (('modify', '[](Elem& e) { e.change(); }'), ('transform', '[](const Elem& e) { return e; }')):
                yield w('M05', 'constant access', n, t, m, '%s is accepted on a constant container' % m,
                        (K, 'c.%s(%s);' % (m, a)), (M, 'c.%s(%s);' % (m, a)))
        for n, t, k in POINTER:
            for par, adj in ((M, 'a'), (K, 'a constant')):
                yield w('M05', 'constant iteration', n, t, 'begin', 'the owning pointer in %s container can be replaced through begin()' % adj,
                        (par, '*c.begin() = std::unique_ptr<Elem>();'), (par, '(void)(*c.begin()).get();'))
                yield w('M05', 'constant iteration', n, t, 'begin', 'the object in %s container can be released through begin()' % adj,
                        (par, '(*c.begin()).reset();'), (par, '(void)(*c.begin()).get();'))
                yield w('M05', 'constant iteration', n, t, 'begin', 'ownership can be moved out of %s container through begin()' % adj,
                        (par, 'for (auto&& p: c) { auto q = std::move(p); (void)q; }'), (par, 'for (auto&& p: c) { auto q = p.get(); (void)q; }'))
                yield w('M05', 'constant iteration', n, t, 'end', 'stepping back from end() of %s container the owning pointer can be replaced' % adj,
                        (par, 'auto it = c.end(); --it; (*it).reset();'), (par, 'auto it = c.end(); --it; (void)(*it).get();'))
        for n, t, k in VALUE + POINTER:
            ptr = (n, t, k) in POINTER
            v = 'std::make_unique<Elem>()' if ptr else 'Elem(1)'
            t2 = {'DualMappedVector': 'std::string("u")', 'DualStringMappedVector': '"u"', 'DualMappedPointerVector': 'std::string("u")'}.get(n.split(' ')[0])
            terms = k if not t2 else '%s, %s' % (t2, k) if 'DualString' in n else '%s, %s' % (k, t2)
            args = '%s, %s' % (terms, v)
            muts = [('insert', args), ('insert_or_assign', args), ('addSearchTermForIndex', '%s, 0' % k), ('removeIndex', '0'), ('remove', k), ('clear', '')]
            if n.startswith('StringMapped') or n == 'DualMappedPointerVector':
                muts = [x for x in muts if x[0] != 'addSearchTermForIndex']
            if n.startswith('Dual') and n != 'DualMappedPointerVector':
                muts.append(('addSearchTerm', '%s, %s' % (k, k)))
            for m, a in muts:
                yield w('M05', 'constant access', n, t, m, '%s is accepted on a constant container' % m,
                        (K, 'c.%s(%s);' % (m, a)), (M, 'c.%s(%s);' % (m, a)))
            yield w('M05', 'constant access', n, t, 'operator=', 'a constant container can be assigned to',
                    (K, 'c = C();'), (M, 'c = C();'))
        for n, t in NOCOPY:
            ctl = (M, 'C d(1); (void)d;' if n == 'WorkQueue' else 'C d; (void)d;')
            yield w('M05', 'no copies', n, t, n, 'the container can be copied by construction', (M, 'C d(c); (void)d;'), ctl)
            yield w('M05', 'no copies', n, t, n, 'the container can be copied from a constant one', (K, 'C d(c); (void)d;'), ctl)
            yield w('M05', 'no copies', n, t, n, 'the container can be copied by initialisation', (K, 'C d = c; (void)d;'), ctl)
            yield w('M05', 'no copies', n, t, n, 'the container can be copied from a constant temporary', (K, 'C d(std::move(c)); (void)d;'), ctl)
            yield w('M05', 'no copies', n, t, 'operator=', 'the container can be copied by assignment', ('C& d, C& c', 'd = c;'), ('C& d, C& c', '(void)d; (void)c;'))
            yield w('M05', 'no copies', n, t, 'operator=', 'the container can be copied by assignment from a constant one', ('C& d, const C& c', 'd = c;'), ('C& d, const C& c', '(void)d; (void)c;'))
            yield w('M05', 'no copies', n, t, 'operator=', 'the container can be copied by assignment from a constant temporary', ('C& d, const C& c', 'd = std::move(c);'), ('C& d, const C& c', '(void)d; (void)c;'))
    if prop == 'B08':
        for n, t in BLOCK:
            yield from iteration('B08', n, t, ((K, 'a constant'),))
            yield w('B08', 'constant iteration', n, t, 'cbegin', 'cbegin() of a container gives an element that can be modified',
                    (M, '(*c.cbegin()).change();'), (M, '(*c.cbegin()).look();'))
            yield w('B08', 'constant iteration', n, t, 'cend', 'stepping back from cend() of a container gives an element that can be modified',
                    (M, 'auto it = c.cend(); --it; it->change();'), (M, 'auto it = c.cend(); --it; it->look();'))
            for par, src in ((K, 'c.begin()'), (K, 'c.end()'), (M, 'c.cbegin()'), (M, 'c.cend()')):
                yield w('B08', 'no way back from constant iterators', n, t, src[2:-2], 'the constant iterator from %s turns into a modifiable one' % src,
                        (par, 'typename C::iterator it(%s); (void)it;' % src), (par, 'typename C::const_iterator it(%s); (void)it;' % src))
            yield w('B08', 'no way back from constant iterators', n, t, 'begin', 'a modifiable iterator can be assigned a constant one',
                    (M, 'typename C::iterator it(c.begin()); it = c.cbegin();'), (M, 'typename C::iterator it(c.begin()); it = c.begin();'))
            yield w('B08', 'no way back from constant iterators', n, t, 'begin', 'a modifiable iterator can be made from the members of a constant container',
                    (K, 'typename C::iterator it = c.begin(); (void)it;'), (M, 'typename C::iterator it = c.begin(); (void)it;'))
            for m in ('operator[]', 'at', 'back', 'front'):
                if m == 'front' and 'Deque' not in n:
                    continue
                x = 'c[0]' if m == 'operator[]' else 'c.at(0)' if m == 'at' else 'c.%s()' % m
                yield w('B08', 'constant access', n, t, m, '%s on a constant container gives an element that can be modified' % m,
                        (K, x + '.change();'), (K, x + '.look();'))
                yield w('B08', 'constant access', n, t, m, '%s on a constant container gives an element that can be assigned' % m,
                        (K, x + ' = Elem(1);'), (K, 'Elem e(%s); (void)e;' % x))
            muts = [('push_back', 'Elem(1)'), ('emplace_back', '1'), ('pop_back', ''), ('clear', ''), ('shrink_to_fit', ''), ('assign', '(const Elem*)nullptr, (const Elem*)nullptr')]
            if 'Deque' in n:
                muts += [('push_front', 'Elem(1)'), ('emplace_front', '1'), ('pop_front', '')]
            for m, a in muts:
                yield w('B08', 'constant access', n, t, m, '%s is accepted on a constant container' % m, (K, 'c.%s(%s);' % (m, a)), (M, 'c.%s(%s);' % (m, a)))
            yield w('B08', 'constant access', n, t, 'operator=', 'a constant container can be assigned to', (K, 'c = C();'), (M, 'c = C();'))


def text(x, side):
    par, body = x[side]
    return 'using C = %s;\nvoid witness(%s) { %s }\n' % (x['ty'], par, body)


class Compiler:
    def __init__(self, repo, scratch):
        self.repo = repo
        self.dir = scratch
        self.all = {}
        h = os.path.join(scratch, 'witness.hpp')
        with open(h, 'w') as f:
            f.write(HEAD)
        self.pch = os.path.join(scratch, 'witness.pch')
        self.base = [CLANG, '-std=c++17', '-fsyntax-only', '-ferror-limit=3', '-I' + repo]
        r = subprocess.run([CLANG, '-std=c++17', '-x', 'c++-header', '-I' + repo, h, '-o', self.pch], capture_output=True, text=True)
        if r.returncode:
            raise Broken('the headers of %s do not compile together:\n%s' % (repo, r.stderr[:3000]))

    def accepts(self, src, tag):
        p = os.path.join(self.dir, 'w-%s-%d.cpp' % (tag, os.getpid()))
        with open(p, 'w') as f:
            f.write(src)
        r = subprocess.run(self.base + ['-include-pch', self.pch, p], capture_output=True, text=True, timeout=120)
        os.unlink(p)
        return r.returncode == 0, r.stderr

    def controls(self, prop):
        """are all control programs accepted together? (decided once; if not they are looked at one by one)"""
        return self.all.get(prop, False)

    def check_controls(self, prop, xs):
        src = ''.join('namespace w%d {\n%s}\n' % (i, text(x, 'good')) for i, x in enumerate(xs))
        self.all[prop] = self.accepts(src, 'controls')[0]

    def where(self, x):
        """the declarations the accepted program can have used: the compiler's candidate notes for a call that fits none"""
        m = x['member']
        nope = 'struct Nope {}; using C = %s;\n' % x['ty']
        par = x['bad'][0]
        if m == x['name'].split('<')[0].split(' ')[0]:
            src = nope + 'void witness(%s) { C d(Nope{}, Nope{}, Nope{}); }\n' % par
        elif m == 'operator=':
            src = nope + 'void witness(%s) { c = Nope{}; }\n' % par.replace('const ', '')
        elif m == 'operator[]':
            src = nope + 'void witness(%s) { c[Nope{}]; }\n' % par
        else:
            src = nope + 'void witness(%s) { c.%s(Nope{}, Nope{}, Nope{}, Nope{}, Nope{}, Nope{}, Nope{}); }\n' % (par, m)
        out = self.accepts(src, 'where')[1]
        locs = []
        for l in out.splitlines():
            g = re.match(r'(\S*gmlc/containers/(\w+\.hpp)):(\d+):\d+: note: (?:candidate|.*declared here)', l)
            if g:
                s = '%s:%s' % (g.group(2), g.group(3))
                if s not in locs:
                    locs.append(s)
        return locs


def run(comp, x, i, r):
    what = '%s: %s' % (x['name'], x['what'])
    r.stats['paths'] = r.stats.get('paths', 0) + 2
    fn = '%s::%s' % (x['name'].split('<')[0].split(' ')[0], x['member'])
    bad, err = comp.accepts(text(x, 'bad'), 'b%d' % i)
    if bad:
        locs = comp.where(x)
        r.findings.append(dict(property=x['prop'], rule=x['rule'], message='%s; this program is accepted: %s' % (what, text(x, 'bad').replace('\n', ' ').strip()),
                               where='%s in %s' % (', '.join(locs[:4]) or 'gmlc/containers', fn), entry=what,
                               path=['candidate declaration at ' + l for l in locs[:6]], stack=[], witness={'program': text(x, 'bad')}))
        return
    good, gerr = (True, '') if comp.controls(x['prop']) else comp.accepts(text(x, 'good'), 'g%d' % i)
    if not good:
        first = [l for l in gerr.splitlines() if ' error: ' in l][:1]
        r.undecided.append(dict(entry=what, why='the control program is rejected too: ' + (first[0].split(' error: ')[1] if first else '?'), where=fn, paths=1))
        return
    first = [l for l in err.splitlines() if ' error: ' in l][:1]
    r.done += 1
    r.functions.add(fn)
    r.obligations[x['rule']] = r.obligations.get(x['rule'], 0) + 1
    r.extra.setdefault('ev_rejections', []).append('%s -> %s' % (text(x, 'bad').split('witness')[1].strip(), first[0].split(' error: ')[1][:120] if first else ''))


def jobs(ctx):
    comp = Compiler(ctx['repo'], ctx['scratch'])
    props = [ctx['prop']] if ctx['prop'] else ['M05', 'B08']
    out = []
    for p in props:
        xs = list(witnesses(p))
        comp.check_controls(p, xs)
        for i, x in enumerate(xs):
            out.append(('%s/%d %s: %s' % (p, i, x['name'], x['what']), lambda r, x=x, i=i: run(comp, x, i, r)))
    return out


EXPLAIN = {'*': 'Every obligation is a pair of programs over the public interface given to clang\'s semantic analysis with the headers of the working tree: '
                'the first would modify or copy what the interface must only show and has to be rejected, the second (the control) only looks and has to be accepted. '
                'Because the verdict is the type checker\'s, it holds for every program that uses the interface in that way, whatever its data.'}
RULES = {'M05': 'every witness program that modifies an element through begin()/end() or a constant mapped vector, or copies a non-copyable container, is ill-formed; its control is well-formed',
         'B08': 'every witness program that modifies an element or the container through a constant stable block container or a constant iterator, or turns a constant iterator into a modifiable one, is ill-formed; its control is well-formed'}
ASSUME = ['clang 18 accepts exactly the well-formed programs', 'the witness programs enumerate the ways the public interface can be used to reach an element (begin, end, find, operator[], at, back, front, apply, modify, transform, insertions, removals, copies); const_cast and casts of addresses are outside the property',
          'in the pointer vectors an element is the owning pointer: the object it points to is reachable by design']
