from contracts._common import *

MDP = CTRL + "MDPVehicle"
VIEW = ENVS + "common.graphics:EnvViewer"


@contract("C43.predict", [MDP + ".predict_trajectory"])
def predict(c):
    """Any number of actions, any durations: a copy of the vehicle takes the actions in turn, each followed by as many steps as it
    lasts, deciding anew before each; a copy of it is saved whenever another timestep has passed (at each step if that is less);
    the vehicle itself is left alone."""
    from highway_env.vehicle.controller import MDPVehicle
    v = bare(c, "MDPVehicle")
    log, copies = [], []
    cls = type("Recorded", (MDPVehicle,), dict(
        act=lambda self, action=None: log.append(("act", self, action)),
        step=lambda self, dt: log.append(("step", self, dt)),
        __deepcopy__=lambda self, memo: (copies.append((self, object.__new__(type(self)))), log.append(("save", self, copies[-1][1])))[0] or copies[-1][1]))
    v.__class__ = cls
    dt = c.pos("dt", s=(.01, .2))
    n, m = c.int("steps per action", 1, s=(1, 6)), c.int("steps per state", 0, s=(0, 5))
    # a little more than that many steps, or what rounding makes of exactly as many
    f, g = c.real("more", 0, s=(0, .9)), c.real("more still", 0, s=(0, .9))
    c.require(And(le(f, .9), le(g, .9)))
    actions, k = many(c, "actions", lambda i, tag: ("action", i), s=(0, 4))
    before = snap(v)
    every = vmax(m, 1)
    if not c.sym:
        got = v.predict_trajectory(actions, (n + f) * dt, (m + g) * dt, dt)
        w = copies[0][1]
        c.ensure("a copy of the vehicle", copies[0][0] is v and all(x[1] in (v, w) for x in log) and log[0] == ("save", v, w))
        want, saved, t = [], [], 0
        for a in actions:
            want.append(("act", w, a))
            for _ in range(n):
                t += 1
                want += [("act", w, None), ("step", w, dt)]
                if t % every == 0:
                    want.append(("save", w))
        c.ensure("in turn", [x if x[0] != "save" else x[:2] for x in log[1:]] == want)
        c.ensure("the saved states", got == [x[2] for x in log[1:] if x[0] == "save"])
        c.ensure("the vehicle is left alone", unchanged(v, before))
        return
    old = ["the states before"]
    loops = []

    def spec(cc, seq, active, j):
        outer = not active
        phase = ["init"]
        start = []

        def inv(cc2, sq, st, seen):
            t, states = st["t"], st["states"]
            if outer:
                i = sq.k
                out = [("so many steps", eq(t, i * n))]
                if phase[0] == "init":
                    out += [("no state yet", states == [])]
                elif phase[0] == "assume":
                    phase[0] = "step"
                return out
            if phase[0] == "init":
                start[:] = [t]
                i = active[-1].seq.k
                return [("the action first", And(log[0][0] == "act", log[0][1] is w(), log[0][2] is not None and eq(log[0][2][1], i))
                         if len(log) == 1 else False)]
            if phase[0] == "assume":
                phase[0] = "step"
                return [("so many steps", eq(t, start[0] + sq.k))]
            out = [("so many steps", eq(t, start[0] + sq.k))]
            what = [x[0] for x in log]
            out.append(("decides, then moves", And(len(log) >= 2, what[:2] == ["act", "step"], log[0][2] is None, eq(log[1][2], dt)) if len(log) >= 2 else False))
            whole = eq(T.floor(t / every) * every, t)
            out.append(("saved when another timestep has passed", Iff(len(log) == 3, whole)))
            out.append(("a copy of it as it is", what[2:] in ([], ["save"]) and states[1:] == [x[2] for x in log[2:]] and states[:1] == old))
            out.append(("the copy", all(x[1] is w() for x in log)))
            return out

        def hav(cc2, sq, seen):
            phase[0] = "assume"
            s.over += sq.k.m == sq.hi.m
            t = c.int("t", 0)
            states = list(old)
            log.clear()
            return {"t": t, "states": states}
        s = LoopSpec(("t", "states"), hav, inv)
        s.over = 0
        loops.append((outer, s))
        return s
    w = lambda: copies[0][1]
    c.loops["many"] = c.loops["range"] = spec
    got = v.predict_trajectory(actions, (n + f) * dt, (m + g) * dt, dt)
    c.ensure("a copy of the vehicle", copies[0][0] is v)
    c.ensure("all actions", [s.over for o, s in loops if o] == [1])
    c.ensure("the states", got[:1] == old)
    c.ensure("the vehicle is left alone", unchanged(v, before))


@contract("C43.sequence", [VIEW + ".set_agent_action_sequence"])
def sequence(c):
    """A displayed sequence is what the vehicle is predicted to do under these actions: each for one decision period, its state
    three times per decision, at the simulation's own time step; indices of a discrete space stand for their labels; a single
    action displays nothing new."""
    import types
    from gym import spaces
    from highway_env.envs.common.graphics import EnvViewer
    from highway_env.envs.common.action import DiscreteMetaAction
    kind = c.choice("kind", ["discrete", "longitudinal", "continuous"])
    e = bare_env(c, policy_frequency=c.pos("policy frequency", s=(.5, 15)), simulation_frequency=c.pos("frequency", s=(1, 60)))
    if kind != "continuous":
        e.action_type = DiscreteMetaAction(e, lateral=kind == "discrete")
        e.action_space = e.action_type.space()
        labels = dict(e.action_type.actions)
        n = c.choice("count", [0, 1, 2, 3])
        actions = [c.choice("action", list(labels)) for _ in range(n)]
        want = [labels[a] for a in actions]
    else:
        e.action_space = spaces.Box(-1, 1, (2,))
        n = c.choice("count", [0, 1, 2, 3])
        actions = want = [(k, "given") for k in range(n)]
    log = []

    def predict_trajectory(actions, action_duration, trajectory_timestep, dt):
        log.append((list(actions), action_duration, trajectory_timestep, dt))
        return "new"
    e.vehicle = types.SimpleNamespace(predict_trajectory=predict_trajectory)
    v = object.__new__(EnvViewer)
    v.env, v.vehicle_trajectory = e, "old"
    given = list(actions)
    v.set_agent_action_sequence(actions)
    c.ensure("the sequence is kept", actions == given)
    if n < 2:
        c.ensure("nothing new", v.vehicle_trajectory == "old" and not log)
        return
    c.ensure("what is displayed", v.vehicle_trajectory == "new" and len(log) == 1)
    f = e.config["policy_frequency"]
    c.ensure("the actions", log[0][0] == want)
    c.ensure("a decision period each", eq(log[0][1] * f, 1))
    c.ensure("three states each", eq(log[0][2] * 3 * f, 1))
    c.ensure("the simulation's time step", eq(log[0][3] * e.config["simulation_frequency"], 1))


@contract("C43.history", [VEH + "Vehicle.step", VEH + "Vehicle.on_state_update", VEH + "Vehicle.create_from", VEH + "Vehicle.__init__"])
def history(c):
    """On roads that record histories every step puts a copy of the vehicle's new state first, at most thirty are kept and
    nothing changes them later; on other roads nothing is recorded."""
    import collections
    from highway_env.vehicle.kinematics import Vehicle
    kind = c.choice("kind", ["Vehicle", "ControlledVehicle", "IDMVehicle", "BicycleVehicle"])
    record = c.choice("recorded", [True, False])
    v = bare(c, kind)
    lane = abstract_lane(c)
    lane.speed_limit = 20
    v.road = road(c, AnyNetwork(c, lane=lane), record_history=record)
    r = v.road
    v.MAX_SPEED = 1000
    n = c.choice("before", [0, 29] if kind == "Vehicle" else [30])
    old = [object() for _ in range(n)]
    v.history = collections.deque(old, maxlen=30)
    kept = []
    for _ in range(2):
        if kind == "IDMVehicle":        # moved in any way, in place like a step does
            v.position += c.vec("moved", 2)
            v.heading = c.real("turned", s=(-4, 4))
            v.on_state_update()
        else:
            v.action = {"steering": c.real("steering", s=(-1, 1)), "acceleration": c.real("acceleration", s=(-5, 5))}
            dt = c.pos("dt", s=(.01, .3))
            v.step(dt) if kind == "BicycleVehicle" else Vehicle.step(v, dt)
        if record:
            kept.insert(0, (v.position[0], v.position[1], v.heading, v.speed))
    got = list(v.history)
    if not record:
        c.ensure("nothing recorded", len(got) == n and all(a is b for a, b in zip(got, old)))
        return
    c.ensure("newest first, at most thirty", len(got) == min(n + 2, 30) and all(a is b for a, b in zip(got[2:], old)))
    for w, (x, y, heading, speed) in zip(got, kept):
        c.ensure("a copy of its own", w is not v and type(w) is type(v) and w.road is r)
        c.ensure("as it was then", And(eq(w.position[0], x), eq(w.position[1], y), eq(w.heading, heading), eq(w.speed, speed)))
    c.ensure("no vehicle is added to the road", list(r.vehicles) == [])
