#!/usr/bin/env python3
"""Writes the regression cases in sim/corpus (they are committed; run this only to change them)."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'corpus')
R = '/w/p'
L = '#%RAML 1.0 Library\n'
DT = '#%RAML 1.0 DataType\n'

def case(prop, name, files, entry='api.raml', vals=(), n=None, ops=None, more=None, s='', seed=7):
    c = {'prop': prop, 'seed': seed, 'cwd': R, 'entry': R + '/' + entry,
         'files': [{'p': R + '/' + k, 'd': v} for k, v in files.items()], 'vals': list(vals)}
    if n: c['n'] = n
    if ops: c['ops'] = ops
    if more: c['more'] = more
    if s: c['s'] = s
    with open(os.path.join(D, '%s-%s.json' % (prop, name)), 'w') as f:
        json.dump(c, f, indent=1); f.write('\n')

os.makedirs(D, exist_ok=True)
for f in os.listdir(D):
    os.remove(os.path.join(D, f))

two = {'api.raml': L + 'uses:\n  u: lib.raml\ntypes:\n  A: u.B\n  C: !include dt.raml\n', 'lib.raml': L + 'types:\n  B: string\n', 'dt.raml': DT + 'type: integer\n'}
for p in ('C01', 'C03', 'C04', 'C05', 'C06', 'C08', 'C13', 'C17'):
    case(p, 'plain', two)

# references in cycles, fragments of the wrong kind
selfdt = {'api.raml': L + 'types:\n  A: !include dt.raml\n', 'dt.raml': DT + 'type: !include dt.raml\n'}
selfprop = {'api.raml': L + 'types:\n  A: !include dt.raml\n', 'dt.raml': DT + 'properties:\n  a?: !include dt.raml\n  b?: !include ./x/../dt.raml\n'}
for p in ('C06', 'C07'):
    case(p, 'self-include', selfdt)
    case(p, 'self-property', selfprop, vals=['{"a":{"a":{}}}'])
    case(p, 'self-entry', {'dt.raml': selfdt['dt.raml']}, entry='dt.raml')
    case(p, 'self-entry-property', {'dt.raml': selfprop['dt.raml']}, entry='dt.raml', vals=['{"a":{"a":{}}}'])
case('C07', 'wrong-kind-1', {'api.raml': L + 'uses:\n  u: dt.raml\ntypes:\n  A: !include dt.raml\n', 'dt.raml': DT + 'type: string\n'})
case('C07', 'wrong-kind-2', {'api.raml': L + 'uses:\n  u: lib.raml\ntypes:\n  A: !include lib.raml\n', 'lib.raml': L})
case('C07', 'wrong-kind-3', {'api.raml': L + 'uses:\n  u: lib.raml\ntypes:\n  A:\n    type: string\n    examples: !include lib.raml\n', 'lib.raml': L})
case('C07', 'wrong-kind-4', {'api.raml': L + 'uses:\n  u: api.raml\ntypes:\n  A:\n    type: string\n    examples: !include api.raml\n'})
for i, t in enumerate(('#%RAML 1.0 Library', L, L + 'null\n', DT, DT + 'null\n', '#%RAML 1.0 NamedExample\n', '#%RAML 1.0 NamedExample\nnull\n', DT + '---\n---\n', L + '- a\n')):
    case('C07', 'no-document-%d' % i, {'api.raml': t})
    case('C07', 'no-document-%d-included' % i, {'api.raml': L + 'uses:\n  u: f.raml\n', 'f.raml': t})
    case('C07', 'no-document-%d-type' % i, {'api.raml': L + 'types:\n  A: !include f.raml\n', 'f.raml': t})
    case('C07', 'no-document-%d-example' % i, {'api.raml': L + 'types:\n  A:\n    type: string\n    examples: !include f.raml\n', 'f.raml': t})

# types that refer to themselves
conv = [{'k': k, 'a': a, 'b': 7 * a} for a in range(4) for k in ('new', 'reuse', 'plain', 'copy', 'reuse', 'edit')]
use = [{'k': k, 'a': a, 'b': b} for a in range(3) for b in range(4) for k in ('validate', 'check', 'print', 'get')]
cyc = {
    'self': '  T1: T1\n', 'pair': '  T1: T2\n  T2: T1\n', 'array': '  T1: T1[]\n', 'array2': '  T1:\n    type: T2\n  T2:\n    type: T1[]\n',
    'optional': '  T1: T1?\n', 'union': '  T1: T1 | string\n', 'union2': '  T1: T2 | string\n  T2: T1 | integer\n',
    'inherit': '  T1:\n    type: [T1, T2]\n  T2:\n    type: object\n', 'inherit2': '  T1:\n    type: [T2, T2]\n  T2:\n    type: T3\n  T3: T1 | T2\n',
    'double': '  T1:\n    properties:\n      p1: [T1, T3]\n  T3:\n    type: T1 | T1 | T1\n',
    'facet': '  T1:\n    type: object\n    facets:\n      f?: T1\n', 'items': '  T1:\n    type: array\n    items: T1\n',
    'prop': '  T1:\n    properties:\n      a?: T2\n  T2:\n    type: T1\n    properties:\n      b?: T1[]\n      c?: T1 | T2\n',
    'self2': '  T1:\n    type: string | integer\n  T2:\n    type: [T1, T1]\n  T3:\n    type: [T2, T2]\n  T4:\n    type: [T3, T3]\n',
    'union3': '  T:\n    type: U0 | nil\n  U0:\n    type: U3 | U1\n  U1:\n    type: U2 | string\n  U2:\n    type: U1 | integer\n  U3:\n    type: T[]\n',
    'union4': '  U0: U3 | U1 | string\n  U1: U2 | string\n  U2: U1 | integer\n  U3:\n    properties:\n      a?: T\n  T: U0 | nil\n',
    'pattern': '  T1:\n    properties:\n      /^a/: T1\n      //: T1\n',
}
for k, v in cyc.items():
    case('C07', 'cycle-' + k, {'api.raml': L + 'types:\n' + v}, vals=['{"a":{"a":{},"b":[{}]}}', '[[],[[]]]', '"x"', '{"p1":{"p1":{}}}'])
    case('C13', 'cycle-' + k, {'api.raml': L + 'types:\n' + v}, vals=['{"a":{}}'])
    for sh in (0, 1):
        for u in (0, 1):
            case('C14', 'cycle-%s-%d%d' % (k, sh, u), {'api.raml': L + 'types:\n' + v}, vals=['{"a":{}}'], n={'unwrap': u, 'shared': sh, 'clones': 3},
                 ops=[{'k': 'walk', 'a': 3, 'b': 5}, {'k': 'facet', 'a': 1, 'b': 1}, {'k': 'facet', 'a': 0, 'b': 2}, {'k': 'meta', 'a': 0, 'b': 1}, {'k': 'unwrap', 'a': 0}, {'k': 'mark', 'a': 0}, {'k': 'prop', 'a': 0, 'b': 1}, {'k': 'items', 'a': 1, 'b': 1}, {'k': 'members', 'a': 1, 'b': 0}])
    case('C01', 'cycle-' + k, {'api.raml': L + 'types:\n' + v}, vals=['{"a":{"a":{},"b":[{}]}}'])
    case('C18', 'cycle-' + k, {'api.raml': L + 'types:\n' + v}, n={'tasks': 3}, ops=conv)
    case('C10', 'cycle-' + k, {'api.raml': L + 'types:\n' + v}, n={'tasks': 3, 'validate': 1}, ops=use, vals=['{"a":{"a":{},"b":[{}]}}', '[[],[[]]]', '"x"', '{}'])

# odd nodes
odd = {
    'type-empty-list': '  T1:\n    type: []\n', 'type-null-list': '  T1:\n    type: [null]\n', 'facets-list': '  T1:\n    facets: [a]\n', 'facets-scalar': '  T1:\n    facets: 3\n',
    'filetypes-empty': '  T1:\n    type: file\n    fileTypes: []\n', 'filetypes-map': "  T1:\n    type: file\n    fileTypes: ['{\"a\":1}']\n  T2:\n    type: T1\n    fileTypes: ['{\"a\":1}']\n",
    'enum-map': "  T1:\n    type: string\n    enum: ['{\"a\":1}']\n  T2:\n    type: T1\n    enum: ['{\"a\":1}']\n",
    'enum-empty': '  T1:\n    type: string\n    enum: []\n', 'properties-list': '  T1:\n    properties: [a]\n', 'examples-null': '  T1:\n    examples:\n  T2:\n    example:\n',
    'union-plain': '  T1: union\n  T2:\n    type: union\n', 'required': '  T1:\n    properties:\n      a: { required: 1 }\n',
}
for k, v in odd.items():
    case('C07', 'odd-' + k, {'api.raml': L + 'types:\n' + v}, vals=['"{\\"a\\":1}"', '{}', '1'])
case('C07', 'odd-uses', {'api.raml': L + 'uses: 3\n'})
case('C07', 'odd-uses-list', {'api.raml': L + 'uses: [a]\n'})
case('C07', 'odd-uses-dt', {'api.raml': DT + 'uses: [a]\ntype: string\n'})

# order of fragments and of violations
many = {'api.raml': L + 'uses:\n' + ''.join('  u%d: l%d.raml\n' % (i, i) for i in range(4))}
for i in range(4):
    many['l%d.raml' % i] = L + 'types:\n  A%d:\n    type: integer\n    minimum: 10\n    maximum: %d\n    example: x\n  B%d:\n    type: A%d\n    enum: [1, 2]\n' % (i, i, i, i)
case('C01', 'many-invalid', many); case('C02', 'many-invalid', many)
case('C02', 'integer-facets', {'api.raml': L + 'types:\n  A:\n    type: integer\n    minimum: 5\n    maximum: 9\n  B:\n    type: A\n    minimum: 1\n  C:\n    type: A\n    maximum: 20\n'})
case('C02', 'additional', {'api.raml': L + 'types:\n  A:\n    additionalProperties: false\n    properties:\n      /^a/: integer\n      b: string\n      c: string\n'},
     vals=['{"x":1,"y":2,"z":3,"a1":"q","a2":"q","a3":[]}', '{"z":1,"y":2,"x":3}', '{}'])
# failed loads
bad = dict(two); bad['lib.raml'] = L + 'types:\n  B: nothing\n'
first = {'files': [{'p': '/w/first/api.raml', 'd': L + 'types:\n  Z: string\n'}], 'entry': '/w/first/api.raml'}
for m in (0, 1, 2, 3):
    case('C12', 'dependency-%d' % m, two, n={'mode': m, 'first': 1}, more=[first, {'files': [{'p': R + '/' + k, 'd': v} for k, v in bad.items()], 'entry': R + '/api.raml'}])
# hooks that fail while members of unions are filtered
un = {'api.raml': L + 'types:\n  A:\n    type: string\n    minLength: 2\n  U: A | integer | string\n  V:\n    type: U\n    description: d\n  W:\n    type: V\n  X:\n    type: [U, V]\n  Y:\n    type: string\n    maxLength: 5\n  Z:\n    type: [Y, U]\n  E: (A | U)[] | Z?\n'}
for p in ('C08', 'C12', 'C13', 'C17', 'C01'):
    case(p, 'unions', un, n={'first': 0, 'opt': 3, 'mode': 0}, vals=['"abc"', '3', 'null'])
case('C18', 'unions', un, n={'tasks': 3}, ops=conv)
case('C10', 'unions', un, n={'tasks': 3}, ops=use, vals=['"abc"', '3', 'null', '[]'])
# the entry named in unusual ways
case('C16', 'back-to-entry', {'api.raml': L + 'uses:\n  u: lib/l.raml\ntypes:\n  A: u.B\n', 'lib/l.raml': L + 'uses:\n  e: ../api.raml\n  f: ./../lib/../api.raml\ntypes:\n  B: string\n  C: e.A\n'}, n={'mode': 0})
case('C06', 'back-to-entry', {'api.raml': L + 'uses:\n  u: lib/l.raml\ntypes:\n  A: u.B\n', 'lib/l.raml': L + 'uses:\n  e: ../api.raml\n  f: ./../lib/../api.raml\ntypes:\n  B: string\n  C: e.A\n'})
# the command line
ok, no = L + 'types:\n  A: string\n', L + 'types:\n  A: nothing\n'
for name, fs in (('first', (no, ok)), ('last', (ok, no)), ('middle', (ok, no, ok)), ('none', (ok, ok)), ('all', (no, no))):
    case('C15', name + '-invalid', {}, ops=[{'k': 'arg', 'a': i, 's': 'd%d/api.raml' % i} for i in range(len(fs))],
         more=[{'files': [{'p': R + '/d%d/api.raml' % i, 'd': t}], 'entry': R + '/d%d/api.raml' % i} for i, t in enumerate(fs)], n={'v': 0})
# types that expand to a number of types that is exponential in the size of the file (a known finding)
dbl = L + 'types:\n' + ''.join('  T%d:\n    properties:\n      a: T%d\n      b: T%d\n' % (i, i + 1, i + 1) for i in range(24)) + '  T24: string\n'
case('C07', 'zz-doubling', {'api.raml': dbl}, s='doubling-types')
# types that change each other when they are unwrapped
mixed = {
    'override-alias': '  A:\n    properties:\n      a: string\n  B:\n    properties:\n      b: string\n  P:\n    properties:\n      p: B\n  C:\n    type: P\n    properties:\n      p: A\n',
    'override-items': '  A:\n    properties:\n      a: string\n  B:\n    properties:\n      b: string\n  P:\n    type: array\n    items: B\n  C:\n    type: P\n    items: A\n',
    'parents': '  A:\n    properties:\n      a: string\n  B:\n    properties:\n      b: string\n  C: [A, B]\n  D:\n    type: [A, B]\n',
    'union-target': '  A:\n    properties:\n      a: string\n  B:\n    properties:\n      b: string\n  P:\n    properties:\n      p: object\n  C:\n    type: P\n    properties:\n      p: A | B\n',
    'member': '  A:\n    properties:\n      a: string\n  P:\n    properties:\n      p: string | A\n  C:\n    type: P\n    properties:\n      p:\n        type: object\n        properties:\n          x: integer\n  H:\n    properties:\n      c: C\n',
    'narrow': '  H1:\n    properties:\n      m: M\n  O1:\n    properties:\n      o: string\n  O2:\n    properties:\n      k: string\n  O3:\n    properties:\n      k: integer\n  M:\n    type: [O1, O2 | O3]\n    properties:\n      k: string\n  H2:\n    properties:\n      m: M\n',
    'alias-chain': '  H:\n    properties:\n      a?: A\n      x: string\n  A: B\n  B: H\n  C:\n    properties:\n      a?: A\n',
}
mops = [{'k': k, 'a': a, 'b': a} for a in (4, 0, 2, 3, 1, 5) for k in ('unwrap', 'copy', 'answers')]
for k, v in mixed.items():
    for i in range(3):
        case('C19', 'mixed-%s-%d' % (k, i), {'api.raml': L + 'types:\n' + v}, ops=mops, seed=7 + i,
             vals=['{"a":"s"}', '{"b":"s"}', '{"a":"s","b":"s"}', '{"p":{"a":"s"}}', '{"p":{"x":1}}', '{"m":{"k":"s"}}', '{"c":{"p":{"x":1}}}', '[{"a":"s"}]'])
# a type that inherits from one that it is a part of (a known finding)
case('C19', 'zz-cyclic', {'api.raml': L + 'types:\n  A:\n    type: B\n    properties:\n      c?: C\n      x: string\n  B:\n    properties:\n      b: string\n  C:\n    type: A\n    properties:\n      d: string\n'},
     n={'cyclic': 1}, s='cyclic-inheritance', vals=['{"x":"s","d":"s"}', '{"x":"s","d":"s","b":"s"}'])
# libraries that are loaded into a model one after the other
later = {
    'recursive-union': ('  T:\n    properties:\n      r?: T?\n', '  A: u.T\n  B: u.T | integer\n  M: [B, A | integer]\n'),
    'recursive-parents': ('  T:\n    properties:\n      r?: T\n', '  X:\n    type: u.T\n  Y:\n    type: u.T\n  M: [X, Y]\n'),
    'recursive-items': ('  T:\n    properties:\n      r?: T[]\n', '  X:\n    type: u.T\n  M:\n    type: X\n    properties:\n      r?: X[]\n'),
    'recursive-override': ('  T:\n    properties:\n      r?: T\n', '  M:\n    type: u.T\n    properties:\n      r?: u.T\n'),
    'recursive-self': ('  T:\n    properties:\n      r?: T[]\n', '  M:\n    type: u.T\n    properties:\n      r?: M[]\n'),
    'recursive-member': ('  T:\n    properties:\n      r?: T | integer\n', '  M:\n    type: u.T\n    properties:\n      r?: u.T | integer\n'),
    'recursive-narrow': ('  T:\n    properties:\n      r?: T | integer\n', '  M:\n    type: u.T\n    properties:\n      r?: M\n'),
    'recursive-of-union': ('  T: U[]\n  U: T | integer\n', '  V:\n    type: u.U\n  M:\n    type: u.T\n    items: V\n'),
    'recursive-pattern': ('  T:\n    properties:\n      /^r$/: T[]\n', '  X:\n    type: u.T\n  M:\n    type: X\n    properties:\n      /^r$/: X[]\n'),
    'recursive-diamond': ('  T:\n    properties:\n      r?: T[]\n', '  X:\n    type: u.T\n  Y:\n    type: u.T\n    properties:\n      r?: Y[]\n  M: [X, Y]\n'),
    'annotations': ('annotations', '  X:\n    type: u.T\n    (u.n): s\n'),
}
for k, (a, b) in later.items():
    a = 'annotationTypes:\n  n: string\ntypes:\n  T:\n    type: object\n    (n): t\n' if a == 'annotations' else 'types:\n' + a
    for i, ops in enumerate([[(1, 1), (0, 1)], [(1, 3), (0, 0)], [(1, 0), (0, 3)], [(0, 3), (1, 1)]]):
        for p in ('C21', 'C22'):
            case(p, 'later-%s-%d' % (k, i), {'a.raml': L + 'uses:\n  u: b.raml\ntypes:\n' + b, 'b.raml': L + a}, entry='a.raml',
                 ops=[{'k': 'load', 'a': x, 'b': y} for x, y in ops] + [{'k': 'use', 'a': 0, 'b': 3}, {'k': 'unwrap'}],
                 vals=['{}', '{"r":{}}', '{"r":{"r":{}}}', '{"r":[{"r":[]}]}', '{"r":{"r":5}}', '5'])
