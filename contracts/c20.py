from contracts._common import *

SIM = ABS + "AbstractEnv._simulate"


@contract("C20.simulate", [SIM], seconds=60, samples=150)
def simulate(c):
    """Exactly floor(simulation frequency / policy frequency) sub-steps of 1/simulation frequency, fewer only when terminal or
    closed; in each everyone acts, then moves; the action is forwarded at the first sub-step of a policy period only."""
    n = c.int("substeps", 0, s=(0, 20))
    pf = c.pos("policy frequency", s=(0.5, 5))
    rest = c.real("rest", 0, s=(0, .4))
    c.require(lt(rest, 1))
    sf = pf * (n + rest) if c.sym else pf * n + min(rest, .4) * pf
    if not c.sym:
        c.require(lt(0, sf))
        n = int(sf // pf)
    e = bare_env(c, simulation_frequency=sf, policy_frequency=pf, manual_control=c.bool("manual control"))
    c.require(lt(0, sf))
    t0 = c.int("periods done", 0, s=(0, 5)) * n if c.bool("at a period's start") else c.int("time", 0, s=(0, 50))
    e.time = t0
    e.done = closed = c.bool("closed")
    action = c.choice("action", [None, 3])
    log, total = [], [0]
    horizon = c.int("horizon", 0, s=(0, 60))

    def terminal():
        return lt(0, T.uf("terminal", T.lift(e.time))) if c.sym else e.time > horizon

    class Road:
        def act(self):
            log.append(("act", e.time))

        def step(self, dt):
            log.append(("step", dt, e.time))

    class Action:
        def act(self, a):
            log.append(("forward", a, e.time))
    e.road, e.action_type, e._is_terminal = Road(), Action(), terminal
    period = lambda t: eq(t - n * floor(t / n), 0) if c.sym else t % n == 0

    def one(entries, t):
        """What one sub-step starting at time t does."""
        fwd = [x for x in entries if x[0] == "forward"]
        rest_ = [x for x in entries if x[0] != "forward"]
        out = [("everyone acts, then moves once", len(rest_) == 2 and rest_[0][0] == "act" and rest_[1][0] == "step"),
               ("the action is forwarded at most once, first", len(fwd) <= 1 and (not fwd or entries[0] is fwd[0]))]
        if len(rest_) == 2:
            out.append(("duration of the sub-step", eq(rest_[1][1] * sf, 1)))
            out.append(("at its time", And(eq(rest_[0][1], t), eq(rest_[1][2], t))))
        if fwd:
            out.append(("the given action", And(fwd[0][1] == action, action is not None, not e.config["manual_control"])))
            out.append(("forwarded at the start of a period", period(t)))
        elif action is not None and not e.config["manual_control"]:
            out.append(("not forwarded only within a period", Not(period(t))))
        return out

    def inv(cc, seq, st, seen):
        out = [("time", eq(e.time, t0 + seq.k)), ("goes on only while open", Implies(lt(0, seq.k), And(not closed, Not(terminal()))))]
        if phase[0] == "step":
            out += one(log, started[0])
        elif phase[0] == "assume":
            phase[0] = "step"
        return out

    def havoc(cc, seq, seen):
        del log[:]
        e.time = started[0] = t0 + seq.k
        phase[0] = "assume"
        return {}
    phase, started = ["init"], [t0]
    if c.sym:
        c.loops["range"] = LoopSpec((), havoc, inv)
    e.enable_auto_render = True
    e._simulate(action)
    if c.sym:
        # left by exhaustion (no sub-step in this path) or by a break during one
        if log:
            for l, b in one(log, started[0]):
                c.ensure(l, b)
            c.ensure("stops early only when terminal or closed", Or(closed, terminal()))
            c.ensure("time advanced", eq(e.time, started[0] + 1))
        else:
            c.ensure("all sub-steps done", eq(e.time, t0 + n))
    else:
        k = e.time - t0
        c.ensure("number of sub-steps", k == n or (0 < k < n and (closed or terminal())))
        by = {}
        for x in log:
            by.setdefault(x[-1], []).append(x)
        c.ensure("one sub-step per time", sorted(by) == list(range(t0, t0 + k)))
        for t, xs in by.items():
            for l, b in one(xs, t):
                c.ensure(l, b)
            e.time = t + 1
            c.ensure("goes on only while open", t == t0 + k - 1 or not (closed or terminal()))
    c.ensure("automatic rendering ends with the step", e.enable_auto_render is False)


@contract("C20.step", [ABS + "AbstractEnv.step"])
def step(c):
    """A step counts one action, simulates it once, and then reports observation, reward, termination and the info of the
    resulting state: the ego's speed and crash flag, the action, and the cost if the task defines one."""
    e = bare_env(c)
    v = bare(c, "Vehicle", crashed=c.bool("crashed before"))
    w = bare(c, "Vehicle", "other")
    e.controlled_vehicles = [v, w] if c.bool("two agents") else [v]
    e.road = object()
    e.steps = k = c.int("steps", 0, s=(0, 9))
    log = []
    speed, crashed = c.real("speed after", s=(0, 30)), c.bool("crashed after")

    def simulate(action=None):
        log.append(("simulate", action))
        v.speed, v.crashed = speed, crashed

    class Obs:
        def observe(self):
            log.append(("observe",))
            return "OBS"
    e._simulate, e.observation_type = simulate, Obs()
    reward, done, cost = c.real("reward"), c.bool("done"), c.real("cost")

    def _reward(a):
        log.append(("reward", a))
        return reward
    e._reward = _reward
    e._is_terminal = lambda: (log.append(("terminal",)), done)[1]
    costly = c.bool("cost defined")
    if costly:
        e._cost = lambda a: (log.append(("cost", a)), cost)[1]
    a = c.choice("action", [0, 3, None])
    obs, r, d, info = e.step(a)
    c.ensure("one action counted", eq(e.steps, k + 1))
    c.ensure("simulated once, first", log[0] == ("simulate", a) and [x[0] for x in log].count("simulate") == 1)
    c.ensure("observation", obs == "OBS" and ("observe",) in log)
    c.ensure("reward of this action", And(eq(r, reward), ("reward", a) in log))
    c.ensure("terminal", d == done)
    c.ensure("speed of the ego", eq(info["speed"], speed))
    c.ensure("crash of the ego", info["crashed"] == crashed)
    c.ensure("the action", info["action"] == a)
    c.ensure("cost", And("cost" in info and eq(info["cost"], cost), ("cost", a) in log) if costly else "cost" not in info)


@contract("C20.reset", [ABS + "AbstractEnv.reset"])
def reset(c):
    """A reset restarts time and step count and links spaces to the newly built scene before observing it."""
    e = bare_env(c)
    e.time, e.steps, e.done = c.int("time", 0), c.int("steps", 0), c.bool("done")
    log = []

    def define():
        log.append(("spaces", e.road))

        class Obs:
            def observe(self, road=e.road):
                log.append(("observe", road))
                return "OBS"
        e.observation_type = Obs()

    def _reset():
        log.append(("scene", e.time, e.steps, e.done))
        e.road = "new scene"
    e.define_spaces, e._reset = define, _reset
    c.ensure("observation", e.reset() == "OBS")
    c.ensure("time restarts", And(eq(e.time, 0), eq(e.steps, 0), e.done is False))
    c.ensure("scene built once, spaces before and after", [x[0] for x in log] == ["spaces", "scene", "spaces", "observe"])
    c.ensure("observes the new scene", log[-1][1] == "new scene")


@contract("C20.close", [ABS + "AbstractEnv.close"])
def close(c):
    """Closing ends the current simulation."""
    e = bare_env(c)
    e.close()
    c.ensure("done", e.done is True and e.viewer is None)


@contract("C20.no-scene", [ABS + "AbstractEnv.step"])
def no_scene(c):
    """Stepping an environment without a scene is refused."""
    e = bare_env(c)
    if c.bool("road"):
        e.road = object()
    k = e.steps
    ex = c.raises(e.step, 0)
    c.ensure("refused", And(isinstance(ex, NotImplementedError), eq(e.steps, k)))


@contract("C20.action", [ACT + "ContinuousAction.act", ACT + "DiscreteMetaAction.act", ACT + "MultiAgentAction.act"])
def action_kept(c):
    """Carrying out an action leaves the action itself alone: what the info reports is the action that was given."""
    from highway_env.envs.common.action import ContinuousAction, DiscreteMetaAction, MultiAgentAction
    env = bare_env(c)

    class Agent(Refuses):
        def act(self, action=None):
            pass

        def __bool__(self):
            return True
    env.controlled_vehicles = [Agent(), Agent()]
    lon, lat = c.choice("axes", [(True, True), (True, False), (False, True)])
    kw = dict(longitudinal=lon, lateral=lat)
    one = lambda: c.vec("action", 2 if lon and lat else 1, s=(-2, 2))
    if c.bool("several agents"):
        kind = c.choice("kind", ["ContinuousAction", "DiscreteMetaAction"])
        t = MultiAgentAction(env, action_config=dict(kw, type=kind))
        a = tuple(one() if kind == "ContinuousAction" else c.choice("index", [0, 2]) for _ in range(2))
    else:
        t = ContinuousAction(env, clip=c.bool("clip"), **kw)
        a = one()
    flat = lambda x: [y for part in x for y in flat(part)] if hasattr(x, "__iter__") else [x]
    before = flat(a)
    t.act(a)
    c.ensure("the action given is left alone", eq(flat(a), before))
