"""Shared by the symbolic and the concrete interpreter of the contracts (no z3 here)."""
PYVC_TRUSTED = True


class UserError(Exception):
    pass


class UserErrorSub(UserError):
    pass


class OtherError(Exception):
    pass


class FrozenError(Exception):
    """An exception whose attributes cannot be set (for instance a frozen dataclass)."""
    def __setattr__(self, name, value):
        if name.startswith('__'):
            return Exception.__setattr__(self, name, value)
        raise AttributeError('frozen: %s' % name)


class BadStrError(Exception):
    def __str__(self):
        raise UserError('str of the exception failed')


class UserBase(BaseException):
    pass


class Outcome:
    __slots__ = ('ok', 'value', 'exc')

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    def raised(self, cls):
        return not self.ok and isinstance(self.exc, cls)

    def __repr__(self):
        return 'Outcome(%s)' % ('value' if self.ok else type(self.exc).__name__)


SCENARIOS = {}


class Scenario:
    def __init__(self, prop, name, func, targets, doc, mode, opts):
        self.prop, self.name, self.func, self.targets, self.doc, self.mode, self.opts = prop, name, func, targets, doc, mode, opts


def contract(prop, targets, mode='both', **opts):
    """Declares a contract scenario of property `prop` over the functions `targets` ("module:qualname")."""
    def deco(f):
        props = [prop] if isinstance(prop, str) else list(prop)
        for p in props:
            SCENARIOS.setdefault(p, []).append(Scenario(p, f.__name__, f, [targets] if isinstance(targets, str) else list(targets), (f.__doc__ or '').strip(), mode, opts))
        return f
    return deco
