"""Structured symbolic strings: concatenations of literals, decimal numbers and unknown words.

An atom is a non-empty piece of text that contains no blanks and none of the characters in SEPARATORS; a number atom is str(n).
With that, splitting, stripping and replacing by separators act on the literal pieces only and are computed exactly."""
PYVC_TRUSTED = True
import z3

from . import core, vals
from .vals import SymInt, SymStr, SymBool, zstr, unsup, EList, uf, S_, I_

SEPARATORS = ',;>+'


def num_term(n):
    return z3.If(n >= 0, z3.IntToStr(n), z3.Concat(z3.StringVal('-'), z3.IntToStr(-n)))


class Word:
    """An unknown word: printable ASCII without blanks and separators."""
    def __init__(self, name):
        self.t = z3.String(name)
        c = core.CTX
        ok = [chr(i) for i in range(33, 127) if chr(i) not in SEPARATORS]
        runs, start = [], None
        for i in range(33, 128):
            good = i < 127 and chr(i) in ok
            if good and start is None:
                start = i
            if not good and start is not None:
                runs.append(z3.Range(chr(start), chr(i - 1)))
                start = None
        c.add(z3.InRe(self.t, z3.Plus(z3.Union(*runs))))
        c.named(name, lambda m: vals.pystring(m.eval(self.t, True)))


class PartStr(SymStr):
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, PartStr):
                out.extend(p.parts)
            elif isinstance(p, str):
                if p:
                    if out and isinstance(out[-1], str):
                        out[-1] += p
                    else:
                        out.append(p)
            else:
                out.append(p)
        self.parts = out
        ts = [z3.StringVal(p) if isinstance(p, str) else num_term(p.t) if isinstance(p, SymInt) else p.t for p in out]
        self.t = z3.StringVal('') if not ts else ts[0] if len(ts) == 1 else z3.Concat(*ts)

    @staticmethod
    def make(parts):
        p = PartStr(parts)
        if not p.parts:
            return ''
        if len(p.parts) == 1 and isinstance(p.parts[0], str):
            return p.parts[0]
        return p

    def pv_sep(self, s):
        return isinstance(s, str) and s != '' and all(ch in SEPARATORS or ch.isspace() for ch in s)

    def __bool__(self):
        return bool(self.parts)

    def __eq__(self, o):
        if isinstance(o, str):
            lit = [p for p in self.parts if isinstance(p, str)]
            if any(p not in o for p in lit):
                return False
            if any(ch in SEPARATORS or ch.isspace() for ch in o) and not lit:
                return False
            if len(self.parts) == 1 and isinstance(self.parts[0], SymInt):
                try:
                    n = int(o)
                except ValueError:
                    return False
                return self.parts[0] == n if str(n) == o else False
        return SymStr.__eq__(self, o)

    __hash__ = SymStr.__hash__

    def __ne__(self, o):
        return vals.neg(self == o)

    def __add__(self, o):
        if isinstance(o, (str, PartStr)):
            return PartStr.make([self, o])
        return SymStr.__add__(self, o)

    def __radd__(self, o):
        if isinstance(o, str):
            return PartStr.make([o, self])
        return SymStr.__radd__(self, o)

    def __contains__(self, o):
        if isinstance(o, str) and o and all(ch in SEPARATORS or ch.isspace() for ch in o):
            return any(o in p for p in self.parts if isinstance(p, str))
        return SymStr.__contains__(self, o)

    def replace(self, a, b, *rest):
        if rest or not self.pv_sep(a) or not isinstance(b, str):
            return SymStr.replace(self, a, b, *rest)
        return PartStr.make([p.replace(a, b) if isinstance(p, str) else p for p in self.parts])

    def split(self, *a):
        if len(a) == 1 and self.pv_sep(a[0]) or not a:
            chunks, blank = [[]], not a
            for p in self.parts:
                if not isinstance(p, str):
                    chunks[-1].append(p)
                    continue
                if blank:
                    pieces = p.split()
                    if not pieces:
                        chunks.append([])
                        continue
                    if p[0].isspace():
                        chunks.append([])
                    chunks[-1].append(pieces[0])
                    for x in pieces[1:]:
                        chunks.append([x])
                    if p[-1].isspace():
                        chunks.append([])
                else:
                    pieces = p.split(a[0])
                    chunks[-1].append(pieces[0])
                    for x in pieces[1:]:
                        chunks.append([x])
            if blank:
                chunks = [x for x in chunks if x]
            return EList([PartStr.make(x) for x in chunks])
        unsup('split of a symbolic string')

    def partition(self, sep):
        if not self.pv_sep(sep):
            unsup('partition')
        r = list(self.split(sep))
        if len(r) == 1:
            return (r[0], '', '')
        tail = [r[1]]
        for x in r[2:]:
            tail += [sep, x]
        return (r[0], sep, PartStr.make(tail))

    def count(self, s):
        if not self.pv_sep(s):
            unsup('count')
        return sum(p.count(s) for p in self.parts if isinstance(p, str))

    def _strip(self, left, right, a):
        if a and not self.pv_sep(a[0]):
            unsup('strip of a symbolic string')
        parts = list(self.parts)
        if left:
            while parts and isinstance(parts[0], str):
                parts[0] = parts[0].lstrip(*a)
                if parts[0]:
                    break
                parts.pop(0)
        if right:
            while parts and isinstance(parts[-1], str):
                parts[-1] = parts[-1].rstrip(*a)
                if parts[-1]:
                    break
                parts.pop()
        return PartStr.make(parts)

    def strip(self, *a):
        return self._strip(True, True, a)

    def lstrip(self, *a):
        return self._strip(True, False, a)

    def rstrip(self, *a):
        return self._strip(False, True, a)

    def pv_int(self):
        """int() of the string: (known, value or None)."""
        s = self.strip()
        if isinstance(s, str):
            try:
                return True, int(s)
            except ValueError:
                return True, None
        if len(s.parts) == 1 and isinstance(s.parts[0], SymInt):
            return True, s.parts[0]
        if any(isinstance(p, str) and any(not (ch.isdigit() or ch in '+-_') for ch in p) for p in s.parts):
            return True, None
        if len(s.parts) == 1:
            # int() of printable ASCII without blanks: exactly [+-]?digits(_digits)*
            w = s.parts[0].t
            d = z3.Plus(z3.Range('0', '9'))
            ok = z3.Concat(z3.Option(z3.Union(z3.Re('+'), z3.Re('-'))), d, z3.Star(z3.Concat(z3.Re('_'), d)))
            if core.CTX.decide(z3.InRe(w, ok), 'int() parses'):
                return True, SymInt(uf('int_of', S_, I_)(w))
            return True, None
        unsup('int() of a structured string')
