"""P18: a program that breaks one of the language's static rules is refused, on the
line that breaks it; the same program with the rule kept is accepted."""
import os
import re
import signal
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import natbuild
from direct import DCase, Inconclusive, run_direct
from pbt import Check, run_main

PRE = '''type q_s = struct{
    i64 a
}
type q_s2 = struct{
    i64 a
}
type q_i = interface{
    fn m(i64):i64
}
type q_k: q_i = struct{
    i64 a
}
fn q_k.m(self, i64 x):i64 {
    return x
}
fn q_k.st():i64 {
    return 1
}
type q_u = i64|string
type q_u2 = i64|string|bool
type q_al = i64
type q_t = union{
    i64 ok
    string no
}
type q_c = enum{
    A,
    B,
}
fn q_f(i64 a, i64 b):i64 {
    return a + b
}
fn q_v() {
}
fn q_e():i64! {
    return 1
}
fn q_gid<T>(T x):T {
    return x
}
fn q_g2<T>(T x, T y):T {
    return x
}
#where T:numeric
fn q_gnum<T>(T x):T {
    return x
}
#where T:comparable
fn q_gcmp<T>(T x):T {
    return x
}
#where T:q_i
fn q_gm<T>(T x):i64 {
    return x.m(1)
}
type q_box<T> = struct{
    T v
}
const Q_K = 5
'''

# type -> declaration of a variable of that type, whose name replaces $
INTS = "i8 i16 i32 i64 u8 u16 u32 u64".split()
TYPES = {t: t + " $ = 1" for t in INTS}
TYPES.update({
    "f32": "f32 $ = 1.5", "f64": "f64 $ = 1.5", "bool": "bool $ = true", "string": "string $ = 'a'",
    "[i64]": "[i64] $ = [1, 2]", "[string]": "[string] $ = ['a']", "[u8]": "[u8] $ = [1, 2]",
    "[[i64]]": "[[i64]] $ = [[1]]", "[i64;3]": "[i64;3] $ = [1, 2, 3]", "[i64;2]": "[i64;2] $ = [1, 2]",
    "(i64,string)": "(i64,string) $ = (1, 'a')", "(string,i64)": "(string,i64) $ = ('a', 1)",
    "map<string,i64>": "map<string,i64> $ = {'a': 1}", "map<i64,i64>": "map<i64,i64> $ = {1: 1}",
    "set<i64>": "set<i64> $ = {1}", "set<string>": "set<string> $ = {'a'}",
    "q_s": "q_s $ = q_s{a: 1}", "q_s2": "q_s2 $ = q_s2{a: 1}", "q_k": "q_k $ = q_k{a: 1}", "q_c": "q_c $ = q_c.A",
    "q_t": "q_t $ = q_t.ok(1)", "q_box<i64>": "q_box<i64> $ = q_box<i64>{v: 1}",
    "q_box<i32>": "q_box<i32> $ = q_box<i32>{v: 1}",
    "fn(i64):i64": "fn(i64):i64 $ = fn(i64 a):i64 {\nreturn a\n}", "fn(i64)": "fn(i64) $ = fn(i64 a) {\n}",
    "fn(i32):i64": "fn(i32):i64 $ = fn(i32 a):i64 {\nreturn 1\n}",
    "fn(i64):i64!": "fn(i64):i64! $ = fn(i64 a):i64! {\nreturn a\n}",
    "ref<q_s>": "ref<q_s> $ = new q_s(a = 1)", "ref<q_s2>": "ref<q_s2> $ = new q_s2(a = 1)",
    "ref<q_k>": "ref<q_k> $ = new q_k(a = 1)",
    "q_u": "q_u $ = 1", "q_u2": "q_u2 $ = true", "q_i": "q_i $ = q_k{a: 1}", "q_al": "q_al $ = 1",
    "chan<i64>": "chan<i64> $ = chan<i64>.new()", "chan<string>": "chan<string> $ = chan<string>.new()",
    "i64?": "i64? $ = 1", "string?": "string? $ = 'a'", "any": "any $ = 1",
})
ASSIGN = {("q_u", "i64"), ("q_u", "string"), ("q_u2", "i64"), ("q_u2", "bool"), ("q_u2", "string"), ("q_u2", "q_u"),
          ("q_i", "q_k"), ("q_i", "ref<q_k>"), ("i64?", "i64"), ("string?", "string")}
NAMES = list(TYPES)
TARGETS = [t for t in NAMES if t != "any"]
# types whose values cannot be told from another type's without a named position
LOOSE = {"any", "q_u", "q_u2", "q_i", "i64?", "string?"}
NODEF = {"q_t", "q_c"}


def ok(a, b):
    return a == b or (a, b) in ASSIGN


# positions in which a value of type A is expected; X stands for the value, z is a variable of type A.
# (statement, helper declarations before the function, needs both directions refused)
USES = {
    "declare": ("A y = X", "", 0),
    "assign": ("z = X", "", 0),
    "argument": ("@p(X)", "fn @p(A p) {\n}\n", 0),
    "second argument": ("@p(z, X)", "fn @p(A p, A q) {\n}\n", 0),
    "rest argument": ("@p(z, X)", "fn @p(...[A] p) {\n}\n", 0),
    "method argument": ("q_k kk = q_k{a: 1}\nkk.@p(X)", "fn q_k.@p(self, A p) {\n}\n", 0),
    "closure argument": ("var g = fn(A p) {\n}\ng(X)", "", 0),
    "go argument": ("go @p(X)", "fn @p(A p) {\n}\n", 0),
    "return": ("return X", "", 0),
    "closure return": ("var g = fn():A {\nreturn X\n}", "", 0),
    "field literal": ("var w = @w{f: X}", "type @w = struct{\nA f\n}\n", 0),
    "field store": ("@w w = @w{f: z}\nw.f = X", "type @w = struct{\nA f\n}\n", 0),
    "new field": ("var w = new @w(f = X)", "type @w = struct{\nA f\n}\n", 0),
    "vec literal": ("[A] w = [z, X]", "", 0),
    "vec first": ("var w = [z, X]", "", 1),
    "vec push": ("[A] w = [z]\nw.push(X)", "", 0),
    "vec store": ("[A] w = [z]\nw[0] = X", "", 0),
    "array literal": ("[A;2] w = [z, X]", "", 0),
    "array store": ("[A;2] w = [z, z]\nw[1] = X", "", 0),
    "map value": ("map<i64,A> w = {1: z, 2: X}", "", 0),
    "map store": ("map<i64,A> w = {1: z}\nw[2] = X", "", 0),
    "tuple literal": ("(i64,A) w = (1, X)", "", 0),
    "tuple store": ("(i64,A) w = (1, z)\nw[1] = X", "", 0),
    "channel send": ("chan<A> w = chan<A>.new(2)\nw.send(X) catch e {\n}", "", 0),
    "generic pair": ("q_g2(z, X)", "", 1),
    "generic explicit": ("q_gid<A>(X)", "", 0),
    "generic field": ("q_box<A> w = q_box<A>{v: z}\nw.v = X", "", 0),
    "tagged argument": ("var w = @y.one(X)", "type @y = union{\nA one\ni64 two\n}\n", 0),
    "ternary": ("var w = true ? z : X", "", 1),
    "compare": ("var w = z == X", "", 1),
    "destructure": ("var (aa, bb) = (z, 1)\naa = X", "", 0),
}
KEYT = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "bool", "string", "f64"]
# positions for types that can be keys
KEYUSES = {
    "map key": ("map<A,i64> w = {z: 1, X: 2}", "", 0),
    "map key store": ("map<A,i64> w = {z: 1}\nw[X] = 2", "", 0),
    "set literal": ("set<A> w = {z, X}", "", 0),
    "set add": ("set<A> w = {z}\nw.add(X)", "", 0),
    "match arm": ("match z {\nX -> {\n}\n_ -> {\n}\n}", "", 0),
}

# places a statement can be put in; | is the statement, S its lines
WRAPS = [
    "|",
    "if true {\n|\n}",
    "if false {\n} else {\n|\n}",
    "if false {\n} else if true {\n|\n} else {\n}",
    "for i in 0..2 {\n|\n}",
    "for int ii = 0; ii < 2; ii += 1 {\n|\n}",
    "for false {\n|\n}",
    "match 3 {\n3 -> {\n|\nvar tk = 1\n}\n_ -> {\n}\n}",
    "match 3 {\n1|2 -> {\n}\n_ -> {\n|\nvar tk = 1\n}\n}",
    "q_u uu = 1\nmatch uu {\nis i64 vv -> {\n|\nvar tk = 1\n}\nis string -> {\n}\n}",
    "q_t uu = q_t.ok(1)\nmatch uu {\nis q_t.ok vv -> {\n|\nvar tk = 1\n}\nis q_t.no vv -> {\n}\n}",
    "q_u uu = 1\nif uu is i64 vv {\n|\n}",
    "try {\nq_e()\n} catch e {\n|\nvar tk = 1\n}",
    "try {\nq_e()\n|\nvar tk = 1\n} catch e {\n}",
    "defer {\n|\n}",
    "var ff = fn() {\n|\n}",
    "var ff = fn(i64 pp):i64 {\n|\nreturn pp\n}",
    "go fn() {\n|\n}()",
]
DEFER = 14
CLOSURES = {15, 16, 17}


def nest(d, stmt, limit=3, ban=(), keep=""):
    """stmt inside up to `limit` places; returns text with the statement between marks"""
    text = "\x01" + stmt + "\x02"
    leaves = re.search(r"\b(return|break|continue|throw)\b", keep + stmt)
    for k in range(d.below(limit + 1)):
        i = d.below(len(WRAPS))
        if i in ban or (i == DEFER and leaves):
            continue
        leaves = leaves or i == 16
        w = WRAPS[i]
        for v in ("uu", "vv", "ff", "ii", "tk"):
            w = re.sub(r"\b%s\b" % v, "%s%d" % (v, k), w)
        w = re.sub(r"\bi in\b", "i%d in" % k, w)
        pre, post = w.rsplit("|", 1)
        text = pre + text + post
    return text


def number(src):
    """lines of the marked statement, and the text without marks"""
    a = src.index("\x01")
    b = src.index("\x02")
    lo = src.count("\n", 0, a) + 1
    hi = src.count("\n", 0, b) + 1
    return src.replace("\x01", "").replace("\x02", ""), lo, hi


def host(d, head, decls, body, ret):
    """a function holding the body: plain, method, generic"""
    k = d.below(5)
    sig = {0: "fn @h()", 1: "fn @h(i64 h1, string h2)", 2: "fn q_k.@h(self)", 3: "fn q_s.@h(&self, i64 h1)", 4: "fn @h<HT>(HT h1)"}[k]
    call = {0: "@h()", 1: "@h(1, 'a')", 2: "q_k @kk = q_k{a: 1}\n@kk.@h()", 3: "var @kk = new q_s(a = 1)\n@kk.@h(1)", 4: "@h(1)"}[k]
    return "%s%s%s {\n%s\n%s\n}\n" % (head, sig, ":" + ret if ret else "", decls, body), call


TYPEWORD = re.compile(r"\bA\b")


def put(text, a):
    return TYPEWORD.sub(lambda m: a, text)


def typed(d, good=False, tag="q0"):
    """one position, one expected type and one value of another type"""
    for _ in range(60):
        name = d.choice(list(USES) + list(KEYUSES))
        stmt, helper, both = USES.get(name) or KEYUSES[name]
        pool = TARGETS if name in USES else KEYT
        a = d.choice(pool)
        b = d.choice(NAMES)
        if good:
            b = a
        if both and (a in LOOSE or b in LOOSE):
            continue
        if not good and (ok(a, b) or (both and ok(b, a))):
            continue
        if name == "compare" and a not in KEYT + ["f32"]:
            continue
        if name.startswith("generic") and ("?" in a or a.startswith("q_box")):
            continue
        break
    else:
        name, a, b = "declare", "i64", "string" if not good else "i64"
        stmt, helper, both = USES[name]
    decls = TYPES[a].replace("$", "z") + "\n" + TYPES[b].replace("$", "x")
    body = put(stmt, a).replace("X", "z" if good else "x")
    ret = ""
    ban = ()
    if name == "return":
        ret = a
        ban = tuple(i for i in range(len(WRAPS)) if "defer" in WRAPS[i] or "fn(" in WRAPS[i])
        text = nest(d, body, 3, ban) + "\nreturn z"
    else:
        keep = ""
        if name in ("method argument", "field store", "vec push", "vec store", "array store", "map store", "tuple store",
                    "channel send", "generic field", "destructure", "map key store", "set add"):
            keep, body = body.split("\n", 1)
        elif name == "closure argument":
            keep, body = body.rsplit("\n", 1)
        text = nest(d, body, 3, ban, keep)
        if keep:
            text = text.replace("\x01", keep + "\n\x01")
    src, call = host(d, put(helper, a), decls, text, ret)
    src = src.replace("@", tag + "_")
    return src, call.replace("@", tag + "_"), "%s: %s given %s" % (name, a, b)


# statements that break a rule other than the type expected in a position: '¦' ends a line that is fine by itself
BAD = [s for s in r'''
u8 a = 300
i8 a = -129
u8 a = -1
i8 a = 128
u16 a = 65536
i16 a = -32769
i32 a = 2147483648
u32 a = 4294967296
i64 a = 9223372036854775808
var x = nope
nope(1)
var x = 1¦x.foo()
var p = q_s{a: 1}¦p.zz = 2
var p = q_s{a: 1}¦println(p.zz)
var p = q_s{zz: 1}
var p = q_s{a: 1, a: 2}
if 1 {~}
if 'abc' {~}
for 1 {~}
var a = 'a'¦var x = a - a
var a = 'a'¦var x = a * a
var a = 'a'¦var x = a / a
var a = true¦var x = a + a
var a = true¦var x = a * a
var a = 1.5¦var x = a << a
var a = 1.5¦var x = a >> 1
var a = 1.5¦var x = a & a
var a = 1.5¦var x = a ^ a
var a = 1.5¦var x = a | a
var a = 'a'¦var x = a & a
i32 a = 1¦i64 b = 2¦var x = a + b
u8 a = 1¦i8 b = 2¦var x = a * b
f32 a = 1¦f64 b = 2¦var x = a - b
f64 a = 1¦i64 b = 2¦var x = a / b
u32 a = 1¦i32 b = 2¦var x = a < b
i64 a = 1¦bool b = true¦var x = a == b
i32 a = 1¦i64 b = 2¦a += b
f64 a = 1¦i64 b = 2¦a *= b
string a = 'a'¦i64 b = 2¦a += b
string a = 'a'¦i64 b = 2¦var x = a + b
[i64] a = [1]¦var x = a + a
q_s a = q_s{a: 1}¦var x = a + a
q_s a = q_s{a: 1}¦var x = a < a
map<i64,i64> a = {1: 1}¦var x = a < a
q_u a = 1¦var x = a + 1
q_i a = q_k{a: 1}¦var x = a + a
i64 a = 1¦var x = !a
string a = 'a'¦var x = !a
string a = 'a'¦var x = -a
bool a = true¦var x = -a
f64 a = 1.5¦var x = ^^a
bool a = true¦var x = ^^a
string a = 'a'¦var x = ^^a
i64 a = 1¦var x = true && a
i64 a = 1¦var x = a || true
string a = 'a'¦var x = a && true
q_f(1)
q_f(1, 2, 3)
q_f('a', 2)
i32 r = q_f(1, 2)
string r = q_f(1, 2)
var r = q_v()
println(q_v())
q_f(q_v(), 1)
var x = 1¦var x = 2
i64 x = 1¦string x = 'a'
i32 x = null
string x = null
q_s x = null
[i64] x = null
[i32;3] l = [1, 2, 3, 4]
(i32, i32) t = (1, 2, 3)
(i32, i32, i32) t = (1, 2)
(i32, string) t = (1, 2)
var t = (1, 2)¦println(t[2])
var (a, b) = (1, 2, 3)
[i32] l = []¦l['a'] = 1
[i32] l = []¦var x = l['a']
map<string,i32> m = {}¦var x = m[1]
var x = 1¦x()
var x = 'a'¦x()
i64 x = 1¦x[0] = 1
i64 x = 1¦var y = x[0]
q_s x = q_s{a: 1}¦var y = x[0]
bool x = true¦for i in x {~}
i64 x = 1¦for i in x {~}
q_u x = 1¦match x {~is i64 v -> {~}~}
q_u x = 1¦match x {~is string v -> {~}~}
q_u x = 1¦match x {~is i64 v -> {~}~is f64 v -> {~}~}
q_u2 x = 1¦match x {~is i64 v -> {~}~is bool v -> {~}~}
q_u x = 1¦var y = x as f64
q_u x = 1¦if x is f64 v {~}
i64 x = 1¦if x is i64 v {~}
q_t x = q_t.zz(1)
q_t x = q_t.ok('a')
q_t x = q_t.ok(1, 2)
q_t x = q_t.ok(1)¦match x {~is q_t.ok v -> {~}~}
q_t x = q_t.ok(1)¦match x {~is q_t.zz v -> {~}~_ -> {~}~}
q_c x = q_c.NOPE
q_c x = 1
i64 x = q_c.A
q_i x = q_s{a: 1}
q_i x = q_k{a: 1}¦x.nope()
q_i x = q_k{a: 1}¦x.m('a')
q_i x = q_k{a: 1}¦x.m()
q_i x = q_k{a: 1}¦var y = x.a
var x = q_k{a: 1}¦x.m()
var x = q_k{a: 1}¦x.m(1, 2)
var x = q_k{a: 1}¦string s = x.m(1)
var y = q_k.st(1)
var x = q_s{a: 1}¦x.m(1)
fn(i32):i32 f = fn(i64 a):i64 {~return a~}
fn(i32):i32 f = fn(i32 a):i64 {~return 1~}
fn(i32):i32 f = fn(i32 a, i32 b):i32 {~return 1~}
fn(i64):i64 f = fn(i64 a):i64 {~return a~}¦f('a')
fn(i64):i64 f = fn(i64 a):i64 {~return a~}¦f(1, 2)
fn(i64):i64 f = fn(i64 a):i64 {~return a~}¦string s = f(1)
var f = fn(i32 a):i32 {~return 'a'~}
var f = fn(i32 a):i32 {~}
var f = fn(bool a):i32 {~if a {~return 1~}~}
var f = fn() {~return 1~}
var f = fn():i64 {~throw errorf('x')~}
var f = fn():i64 {~return q_e()~}
nope x = 1
[nope] x = []
map<nope,i64> m = {}
map<i64,nope> m = {}
(i64,nope) m = (1, 2)
fn(nope):i64 f = null
ref<nope> f = null
q_box<nope> f = q_box<nope>{v: 1}
q_box<i64,i64> f = q_box<i64,i64>{v: 1}
q_s<i64> f = q_s{a: 1}
q_box<i64> x = q_box<i64>{v: 'a'}
q_box<i64> x = q_box<string>{v: 'a'}
q_g2('a', 1)
q_g2(1, true)
q_gid<string>(1)
q_gid<i32,i32>(1)
q_gnum('a')
q_gnum(true)
q_gnum(q_s{a: 1})
q_gnum([1])
q_gcmp(true)
q_gcmp(q_s{a: 1})
q_gm(q_s{a: 1})
q_gm(1)
q_f = 1
q_s = 1
Q_K = 2
Q_K += 2
1 = 2
q_f(1, 2) = 3
q_f(1, 2) += 3
const Q = 1¦Q = 2
var x = 'a' as i32
var x = 1 as string
var x = true as i64
var x = q_s{a: 1} as i64
var x = 1 as q_s
var x = [1] as i64
var x = 'a' as bool
for k, v, w in [1] {~}
var x = true ? 1 : 'a'
var x = 1 ? 1 : 2
i64 x = true ? 'a' : 'b'
i64 a = 1¦var x = a ? 1 : 2
var x = match 1 {~1 -> 'a'~_ -> 2~}
i64 x = match 1 {~1 -> 'a'~_ -> 'b'~}
match 'a' {~1 -> {~}~_ -> {~}~}
var x = nomod.f()
var x = []
var x = {}
new nope()
var x = new q_s(zz = 1)
var x = new q_s(a = 'q')
var x = q_e() catch e {~'a'~}
try {~q_f(1, 2)~q_e()~} catch e {~i32 q = e~}
string s = 'a'¦s[0] = 'b'
@sizeof(nope)
i64 x = @sizeof(i64) + 'a'
go 5
var x = &1
var x = &q_f(1, 2)
var x = *5
i64 y = 1¦var x = *y
i64 y = 1¦ref<i64> p = y
i64 a = 1¦u8 c = a as u8¦i8 d = c
[i64] l = [1]¦for string q in l {~}
[i64] l = [1]¦i64 n = l.nope()
[i64] l = [1]¦i64 n = l.len
[i64] l = [1]¦var n = l.a
[i64] l = [1]¦l.push()
[i64] l = [1]¦l.push(1, 2)
map<i64,i64> l = {1: 1}¦l.del()
map<i64,i64> l = {1: 1}¦l.del('a')
string s = 'a'¦var n = s.nope()
string s = 'a'¦var n = s.len(1)
chan<i64> c = chan<i64>.new()¦string s = c.recv()
chan<i64> c = chan<i64>.new()¦c.nope()
chan<i64> c = chan<i64>.new('a')
var x = 5 5
var x = (1
var x = [1, 2
else {~}
var = 1
i64 = 1
x y z
1.2.3
var 1x = 2
@nope(1)
i64 x = 1 +
i64 x = + 1 *
i64 x == 1
if true
for
match
q_f(1, 2
q_f(1,, 2)
q_s x = q_s{a 1}
q_s x = q_s{a: }
import
'''.strip("\n").split("\n")]
BAD = [b.replace("^^", "\x03").replace("~", "\n").replace("\x03", "~") for b in BAD]
# statements of the table whose defect is one of syntax: reported on the line or the one after it
SYNTAX_FROM = next(i for i, b in enumerate(BAD) if b == "var x = 5 5")

# declarations that break a rule; the marks hold the lines a report may name
DECL = '''
\x01fn @h(bool b):i64 {~if b {~return 1~}~\x02}
\x01fn @h(i64 b):i64 {~match b {~1 -> {~return 1~}~_ -> {~}~}~\x02}
\x01fn @h(i64 b):i64 {~for b > 0 {~return 1~}~\x02}
fn @h():i64 {~\x01throw errorf('x')\x02~}
fn @h() {~\x01throw errorf('x')\x02~}
fn @h():i64 {~\x01return q_e()\x02~}
fn @h() {~\x01q_e()\x02~}
fn @h() {~\x01break\x02~}
fn @h() {~\x01continue\x02~}
fn @h() {~\x01return 1\x02~}
fn @h():i64 {~\x01return\x02~}
fn @h() {~for i in 0..3 {~var f = fn() {~\x01break\x02~}~}~}
fn @h() {~for i in 0..3 {~var f = fn() {~\x01continue\x02~}~}~}
fn @h(i64 a) {~}~\x01fn @h(i64 b) {~\x02}
type @t = struct{~i64 a~}~\x01type @t = struct{~i64 b~\x02}
\x01fn @h(nope a) {~}\x02
\x01fn @h():nope {~}\x02
\x01type @t = struct{~nope a~}\x02
\x01type @t = [nope]\x02
\x01type @t: q_i = struct{~i64 a~}\x02
\x01type @t: q_i = struct{~i64 a~}~fn @t.m(self, string x):i64 {~return 1~}\x02
\x01type @t: q_i = struct{~i64 a~}~fn @t.m(self, i64 x):string {~return 'a'~}\x02
\x01type @t: q_i = struct{~i64 a~}~fn @t.m(self):i64 {~return 1~}\x02
\x01type @t: nope = struct{~i64 a~}\x02
\x01fn nope.@h(self) {~}\x02
\x01i64 @g = 'a'\x02
\x01string @g = 1\x02
\x01var @g = nope\x02
\x01const @g = nope\x02
\x01fn @h(\x02
\x01type @t = \x02
\x01struct @t {~}\x02
\x01fn @h() {\x02
'''.strip("\n").split("\n")
DECL = [x.replace("~", "\n") for x in DECL]
# declarations with broken syntax: the report may come as late as the end of the file
DECL_SYNTAX = next(i for i, x in enumerate(DECL) if x.startswith("\x01fn @h(\x02"))


def table(d):
    i = d.below(len(BAD) + len(DECL))
    if i >= len(BAD):
        t = DECL[i - len(BAD)]
        src = t.replace("@", "q0_") + "\n"
        return src, "", "declaration: " + t.replace("\x01", "").replace("\x02", ""), 1000 if i - len(BAD) >= DECL_SYNTAX else 1
    t = BAD[i]
    parts = t.split("¦")
    body = nest(d, parts[-1], 3, (), "".join(parts[:-1]))
    if len(parts) > 1:
        body = body.replace("\x01", "\n".join(parts[:-1]) + "\n\x01")
    src, call = host(d, "", "", body, "")
    if re.search(r"@[^sn]", t) is None:
        src = src.replace("@sizeof", "\x04").replace("@nope", "\x05")
    src = src.replace("@", "q0_").replace("\x04", "@sizeof").replace("\x05", "@nope")
    return src, call.replace("@", "q0_"), "statement: " + t, 1 if i >= SYNTAX_FROM else 0


def program(src, call, before=""):
    return PRE + before + src + "fn main() {\n" + call + "\n}\n"


def filler(d):
    """declarations that are fine"""
    out = ""
    for k in range(d.below(3)):
        src, call, what = typed(d, True, "q%d" % (k + 1))
        out += number(src)[0]
    return out


def gen_typed(d):
    before = filler(d)
    src, call, what = typed(d)
    text, lo, hi = number(program(src, call, before))
    return DCase(text, True, what, [what.split(":")[0]], text, src=text, lo=lo, hi=hi, what=what)


def gen_table(d):
    before = filler(d)
    src, call, what, slack = table(d)
    text, lo, hi = number(program(src, call, before))
    return DCase(text, True, what, [what.split(":")[0]], text, src=text, lo=lo, hi=hi + slack, what=what)


def gen_good(d):
    srcs, calls = [], []
    feats = set()
    for k in range(24):
        src, call, what = typed(d, True, "q%d" % k)
        srcs.append(number(src)[0])
        calls.append(call)
        feats.add(what.split(":")[0])
    text = PRE + "".join(srcs) + "fn main() {\nif false {\n" + "\n".join(calls) + "\n}\n}\n"
    return DCase(text, True, "24 accepted functions", sorted(feats), text, src=text)


NATURE = None


def compile_in(src, d):
    with open(os.path.join(d, "main.n"), "w") as f:
        f.write(src)
    env = dict(os.environ, NATURE_ROOT=NATURE[1])
    try:
        p = subprocess.run([NATURE[0], "build", "--ld", "/usr/bin/ld", "main.n"], cwd=d, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    except subprocess.TimeoutExpired:
        raise Inconclusive("compilation took more than 120 s")
    return p.returncode, p.stdout.decode("utf-8", "replace")


def sig(rc):
    return signal.Signals(-rc).name if rc < 0 else "status %d" % rc


def eval_bad(case, d):
    rc, out = compile_in(case.src, d)
    first = out.strip().split("\n")[0][:200]
    if rc == -signal.SIGKILL:
        raise Inconclusive("compiler killed")
    if rc == 0:
        return "accepted: %s" % case.what
    if rc != 1:
        return "compiler ended by %s: %s: %s" % (sig(rc), case.what, first)
    m = re.match(r"[^:\n]*main\.n:(\d+):(\d+):? *\S", out.strip())
    if not m:
        return "refused without a report naming the line: %s: %s" % (case.what, first)
    if not case.lo <= int(m.group(1)) <= case.hi:
        return "reported on another line: %s, lines %d to %d: %s" % (case.what, case.lo, case.hi, first)
    if os.path.exists(os.path.join(d, "main")):
        return "an executable was left: %s" % case.what
    return None


def eval_good(case, d):
    rc, out = compile_in(case.src, d)
    if rc == -signal.SIGKILL:
        raise Inconclusive("compiler killed")
    if rc != 0:
        first = next((l for l in out.split("\n") if "main.n:" in l), out.strip().split("\n")[0])[:300]
        m = re.search(r"main\.n:(\d+):", first)
        line = case.src.split("\n")[int(m.group(1)) - 1] if m else ""
        return "refused: %s: %s: %s" % (sig(rc), first, line)
    return None


def main():
    global NATURE
    chk = Check("P18", rule="every refused program has exactly one broken rule inside otherwise accepted code; "
                            "distinct by program text")
    tc = natbuild.Toolchain()
    NATURE = (tc.nature, tc.root)
    run_direct(chk, [("typed", 10, gen_typed, eval_bad), ("table", 10, gen_table, eval_bad), ("accepted", 1, gen_good, eval_good)],
               2000, 40000, chunk=4)
    chk.finish()


if __name__ == "__main__":
    run_main(main)
