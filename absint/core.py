"""Shared state of the abstract machine: decisions, budgets, engine errors, branch trace."""
import re


class EngineError(BaseException):
    """Raised by the analyser itself; analysed code can never catch it."""


class Unmodelled(EngineError):
    """The path uses a construct outside the abstract semantics: it is inconclusive."""


class Budget(EngineError):
    """The path exceeded its step budget."""


class AnchorMissing(EngineError):
    """A public name the property is stated about has vanished."""


class PathState:
    """Everything that is reset before each explored path."""

    def __init__(self, decisions=()):
        self.decisions = list(decisions)
        self.pos = 0
        self.arity = []
        self.labels = []
        self.memo = {}
        self.steps = 0
        self.trace = []
        self.raise_site = None
        self.site = None
        self.events = []
        self.token_counter = 0


class Machine:
    def __init__(self):
        self.path = PathState()
        self.budget = 400000
        self.depth = 0
        self.files = {}  # repo files consulted -> digest
        self.functions = set()  # functions entered (file, qualname)
        self.sites = set()  # (file, line) statements evaluated
        self.world = None

    def choose(self, label, n):
        """Nondeterministic abstract branch with n outcomes (0..n-1)."""
        p = self.path
        if p.pos < len(p.decisions):
            d = p.decisions[p.pos]
        else:
            d = 0
            p.decisions.append(0)
        if p.pos >= len(p.arity):
            p.arity.append(n)
            p.labels.append(label)
        p.pos += 1
        if p.pos > 64:
            raise Unmodelled("more than 64 abstract branches on one path")
        return d

    def choose_memo(self, key, label, n):
        memo = self.path.memo
        if key not in memo:
            memo[key] = self.choose(label, n)
        return memo[key]


M = Machine()

PUA = re.compile("[\ue000-\uf8ff]")


def has_token(s):
    return PUA.search(s) is not None
