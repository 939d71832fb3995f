"""Registry of contract harnesses."""
REG = {}


class H:
    def __init__(self, **k):
        self.__dict__.update(k)


class Loop:
    """contract of a while loop: inv = invariant, havoc = the arbitrary state satisfying it, step = extra
    obligations relating the state before and after one iteration, exit = called when the loop is left.
    exit_at_head=False: the state left by an iteration that ends the loop is carried on directly (the
    havoc state then need not describe finished loops)"""
    exit_at_head = False

    def inv(self, interp, env, entry):
        return True

    def havoc(self, interp, env):
        return {}

    def step(self, interp, before, after):
        pass

    def exit(self, interp, env):
        pass


def harness(prop, name, fns, inputs=None, cases=None, stubs=None, models=None, level="proof", n=60, tn=None, gen=None,
            budget=200, qtimeout=40, max_paths=20000, max_loop=4000, bound=None, known=None, tier="quick", trusted=(),
            covers=(), conc=None, samples_s=20, intmode=False, loops=None, absb=False, fold=None):
    """Declare a contract harness.

    fns      names of the functions under contract (the code whose body is verified here)
    inputs   dict name->Dom, or function(case) -> dict
    cases    list of dicts of concrete parameters (each is a separate proof task)
    stubs    function(case) -> {real function: contract stub}: callees replaced by their contracts
    level    'proof' (all inputs), 'bounded' (concrete enumeration only),
             'bounded-proof' (all inputs up to the stated bound, decided by the verifier)
    gen      for level 'bounded': function(rnd, i, case) -> dict of inputs
    conc     separate concrete harness (same parameters) when the symbolic one cannot run natively
    """
    def deco(f):
        h = H(prop=prop, name=name, fns=list(fns), inputs=inputs, cases=cases or [{}], stubs=stubs, models=models,
              level=level, n=n, tn=tn or n * 10, gen=gen, budget=budget, qtimeout=qtimeout, max_paths=max_paths,
              max_loop=max_loop, bound=bound, known=known, tier=tier, fn=f, trusted=list(trusted), covers=list(covers),
              conc=conc, samples_s=samples_s, intmode=intmode, loops=loops, absb=absb, fold=fold)
        d = REG.setdefault(prop, {})
        assert name not in d, name
        d[name] = h
        return f
    return deco
