"""Simulated conic solver: the real cvxopt one, failing as told."""
from .core import make_exc


class SimSolver(object):
    """Context: every solver call passes here.

    script: {call number: action}, action one of
      ["raise", exc]        before solving
      ["raise-after", exc]  after solving
      ["status", status]    solver claims this status
      ["lost", status]      the same, and returns no solution
      ["maxiters", n]       stops early
    """

    def __init__(self, sim, script=None):
        self.sim, self.script = sim, dict(script or {})
        self.calls, self.options, self.fired = 0, [], 0
        self.results = []
        self.lied = False

    def __enter__(self):
        import cvxopt
        import cvxopt.modeling
        import cvxopt.coneprog as c
        self.mods = [c, cvxopt.solvers]
        self.real = c.conelp
        for m in self.mods:
            m.conelp = self.conelp
        return self

    def __exit__(self, *a):
        for m in self.mods:
            m.conelp = self.real

    def conelp(self, *a, **k):
        import cvxopt.coneprog as c
        n, self.calls = self.calls, self.calls+1
        act = self.script.get(n)
        opt = dict(k.get("options", c.options))
        self.options.append(dict(opt))
        k = dict(k)
        if act:
            self.fired += 1
            self.sim.fault("solver-" + act[0])
            if act[0] == "raise":
                raise make_exc(act[1], "solver")
            if act[0] == "maxiters":
                opt["maxiters"] = act[1]
        # never write to the simulator's terminal
        opt["show_progress"] = False
        k["options"] = opt
        sol = self.real(*a, **k)
        if act:
            if act[0] == "raise-after":
                raise make_exc(act[1], "solver")
            if act[0] in ("status", "lost"):
                sol = dict(sol, status=act[1])
            if act[0] == "lost":
                sol.update(x=None, y=None, z=None, s=None)
        if not act and sol["status"] == "optimal":
            # a solver may call a point optimal that it reports as infeasible
            # (seen with constant objectives)
            for k in ("primal infeasibility", "dual infeasibility"):
                if not (sol.get(k) is not None and sol[k] <= 10*opt.get(
                        "feastol", 1e-7)):
                    self.lied = True
        self.results.append(sol["status"])
        return sol
