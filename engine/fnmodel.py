"""Contracts of std::function and std::map<K, std::function> used by the repository's callback code.

A std::function built from a callable becomes a value fnobj(handler, captured words); copies and
assignments carry the value; a call whose target is known continues in the handler's code."""
import re
from .val import *
from .absint import Analyzer, Memory, Bool, base_of, param_types, dem

CT = re.compile(r"^std::function<.*>::function(<.*>)?\((.*)\)$")
AS = re.compile(r"std::function<.*>::operator=(<.*>)?\((.*)\)$")
BO = re.compile(r"^std::function<.*>::operator bool\(\) const$")
CA = re.compile(r"^(?:.* )?std::function<.*>::operator\(\)\(.*\) const$")
MI = re.compile(r"std::map<.*>::(operator\[\]|at)\(.*\)$")
MT = re.compile(r"std::_Rb_tree<.*>|std::map<.*>::erase\(")


def is_lambda_src(mod, name):
    return mod.info["handlers"].get(name)


def fnobj_of(v):
    """the fnobj key if the value is a known function object"""
    p = v.single()
    if p is None:
        return None
    a = p.single_atom()
    if a is None or atom_key(a)[0] != "fnobj":
        return None
    return atom_key(a)


def fnobj(handler, caps):
    return V(Poly.atom(("fnobj", handler, tuple(caps), "p")))


def call_handler(A, handler, caps, args, mem, tag="h"):
    """run the _M_invoke of a stored callable on (a copy of) mem -> Result"""
    F = Poly.atom(("arg", "functor" + tag, "p"))
    m = mem.copy()
    for k, c in enumerate(caps):
        if c is not None:
            m.cells[F + Poly.const(8 * k)] = (8, c)
    sub = Analyzer(A.mod, (), A.opts)
    sub.models = A.models
    sub.cfgcache = A.cfgcache
    av = {0: V(F)}
    for i, a in enumerate(args):
        av[i + 1] = a
    return sub.run(handler, av, m, tag=tag)


def m_ctor(A, ev, m, st):
    mm = CT.match(ev.dname)
    if not mm:
        return NotImplemented
    d = ev.args[0]
    if len(ev.args) == 1:
        m.store(d, 8, V(0), ("fn", ev.uid))
        return None
    ps, _ = param_types(ev.dname)
    if ps and "std::function<" in ps[0] and "lambda" not in ps[0].split("std::function<")[0]:
        hs = is_lambda_src(A.mod, ev.name)
        if not hs:
            m.store(d, 8, m.load(ev.args[1], 8, "p"), ("fn", ev.uid))
            return None
    hs = is_lambda_src(A.mod, ev.name)
    if hs and len(hs) == 1:
        caps = [m.load(ev.args[1], 8, "p"), m.load(vadd(ev.args[1], V(8)), 8, "p")]
        m.store(d, 8, fnobj(hs[0], caps), ("fn", ev.uid))
        return None
    return NotImplemented


def m_assign(A, ev, m, st):
    mm = AS.search(ev.dname)
    if not mm or len(ev.args) != 2:
        return NotImplemented
    hs = is_lambda_src(A.mod, ev.name)
    if hs and len(hs) == 1:
        caps = [m.load(ev.args[1], 8, "p"), m.load(vadd(ev.args[1], V(8)), 8, "p")]
        m.store(ev.args[0], 8, fnobj(hs[0], caps), ("fn", ev.uid))
        return ev.args[0]
    ps, _ = param_types(ev.dname)
    if ps and "std::function<" in ps[0]:
        m.store(ev.args[0], 8, m.load(ev.args[1], 8, "p"), ("fn", ev.uid))
        return ev.args[0]
    return NotImplemented


def m_bool(A, ev, m, st):
    v = m.load(ev.args[0], 8, "p")
    if fnobj_of(v):
        return Bool(1)
    if v.const() == 0:
        return Bool(0)
    return NotImplemented


def m_call(A, ev, m, st):
    if not CA.match(ev.dname):
        return NotImplemented
    k = fnobj_of(m.load(ev.args[0], 8, "p"))
    if not k:
        return NotImplemented
    r = call_handler(A, k[1], k[2], ev.args[1:], m, tag="@%s" % (ev.uid,))
    m.cells, m.regions, m.vers, m.objver = r.mem.cells, r.mem.regions, r.mem.vers, r.mem.objver
    A.res.events.extend(r.events)
    return r.ret


def slot(mapaddr, key):
    return Poly.atom(("mapslot", mapaddr, key, "p"))


def m_index(A, ev, m, st):
    a = ev.args[0].single()
    k = m.load(ev.args[1], 8, "p").single()
    if a is None or k is None:
        return NotImplemented
    return V(slot(a, k))


def m_erase(A, ev, m, st):
    ps, _ = param_types(ev.dname)
    if not ps or len(ps) != 1:
        return NotImplemented
    if "iterator" in ps[0]:
        k = mapit_of(ev.args[1])
        if k is None:
            return NotImplemented
        m.store(V(slot(k[1], k[2])), 8, V(0), ("erase", ev.uid))
        return A.opaque(ev, m)
    a = ev.args[0].single()
    k = m.load(ev.args[1], 8, "p").single()
    if a is None or k is None:
        return NotImplemented
    m.store(V(slot(a, k)), 8, V(0), ("erase", ev.uid))
    return VA("erased", ev.uid, "i64")


def slot_of(A, ev, m):
    a = ev.args[-2].single()
    k = m.load(ev.args[-1], 8, "p").single()
    return None if a is None or k is None else slot(a, k)


def present(v):
    """guard: the slot value stands for an entry; None if unknown"""
    g = 0
    for gg, p in v.cases:
        at = p.single_atom()
        if at is not None and atom_key(at)[0] == "fnobj":
            g = g_or(g, gg)
        elif p.const_val() != 0:
            return None
    return g


def m_count(A, ev, m, st):
    s = slot_of(A, ev, m)
    if s is None:
        return NotImplemented
    g = present(m.load(V(s), 8, "p"))
    return NotImplemented if g is None else guard_to_val(g)


def m_find(A, ev, m, st):
    s = slot_of(A, ev, m)
    if s is None or len(ev.args) != 2:
        return NotImplemented
    k = atom_key(s.single_atom())
    return V(Poly.atom(("mapit", k[1], k[2], "p")))


def mapit_of(v):
    p = v.single()
    a = p.single_atom() if p is not None else None
    return atom_key(a) if a is not None and atom_key(a)[0] == "mapit" else None


def m_itcmp(A, ev, m, st):
    """comparison of a find() result with end()"""
    if len(ev.args) != 2:
        return NotImplemented
    its = [mapit_of(m.load(a, 8, "p")) for a in ev.args]
    if (its[0] is None) == (its[1] is None):
        return NotImplemented
    k = its[0] or its[1]
    other = m.load(ev.args[1 if its[0] else 0], 8, "p").single()
    a = other.single_atom() if other is not None else None
    if a is None or atom_key(a)[0] != "call" or "3endEv" not in str(atom_key(a)[1]):
        return NotImplemented
    g = present(m.load(V(slot(k[1], k[2])), 8, "p"))
    if g is None:
        return NotImplemented
    return Bool(g) if "operator!=" in ev.dname else Bool(g_not(g))


def m_insas(A, ev, m, st):
    r = A.opaque(ev, m)
    n = len(ev.args)
    if n < 3:
        return NotImplemented
    a = ev.args[n - 3].single()
    k = m.load(ev.args[n - 2], 8, "p").single()
    if a is None or k is None:
        return NotImplemented
    m.store(V(slot(a, k)), 8, m.load(ev.args[n - 1], 8, "p"), ("ins", ev.uid))
    return r


def m_none(A, ev, m, st):
    return None


MODELS = [
    (r"^std::function<.*>::function(<.*>)?\(", m_ctor),
    (r"std::function<.*>::operator=(<.*>)?\(", m_assign),
    (r"^std::function<.*>::operator bool\(\) const$", m_bool),
    (r"std::function<.*>::operator\(\)\(.*\) const$", m_call),
    (r"std::map<.*>::(operator\[\]|at)\(.*\)$", m_index),
    (r"std::map<.*>::erase\(", m_erase),
    (r"std::map<.*>::count\(", m_count),
    (r"std::map<.*>::find\(", m_find),
    (r"std::map<.*>::insert_or_assign<", m_insas),
    (r"std::operator(==|!=)\(std::_Rb_tree_(const_)?iterator<", m_itcmp),
    (r"^std::(function<.*>::~function|_Function_base::~_Function_base)\(\)$", m_none),
]
