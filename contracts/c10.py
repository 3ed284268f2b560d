from contracts._common import *

LPV_T = [DYN + "BicycleVehicle.lateral_lpv_structure", DYN + "BicycleVehicle.lateral_lpv_dynamics",
         DYN + "BicycleVehicle.full_lateral_lpv_structure", DYN + "BicycleVehicle.full_lateral_lpv_dynamics"]


def _veh(c):
    """Any state, any (positive) physical parameters."""
    v = bare(c, "BicycleVehicle", speed=c.real("v", s=(-20, 20)))
    v.lateral_speed, v.yaw_rate = c.real("vlat", s=(-5, 5)), c.real("r", s=(-8, 8))
    v.action = {"steering": c.real("steering", s=(-2, 2)), "acceleration": c.real("acc", s=(-6, 6))}
    v.MASS, v.INERTIA_Z = c.pos("mass", s=(.5, 3)), c.pos("inertia", s=(1, 5))
    v.LENGTH_A, v.LENGTH_B = c.pos("la", s=(1, 4)), c.pos("lb", s=(1, 4))
    v.FRICTION_FRONT, v.FRICTION_REAR = c.pos("cf", s=(5, 30)), c.pos("cr", s=(5, 30))
    return v


def forces(v, steer):
    tf = atan2(v.lateral_speed + v.LENGTH_A * v.yaw_rate, v.speed)
    tr = atan2(v.lateral_speed - v.LENGTH_B * v.yaw_rate, v.speed)
    return 2 * v.FRICTION_FRONT * (steer - tf), 2 * v.FRICTION_REAR * (0 - tr)


@contract("C10.derivative", [DYN + "BicycleVehicle.derivative"])
def derivative(c):
    """The state derivative is Rajamani's lateral model at |speed| >= 1 and is damped below."""
    v = _veh(c)
    d = v.derivative
    c.ensure("world velocity", And(eq(d[0, 0], v.speed * cos(v.heading) - v.lateral_speed * sin(v.heading)),
                                   eq(d[1, 0], v.speed * sin(v.heading) + v.lateral_speed * cos(v.heading))))
    c.ensure("yaw and speed", And(eq(d[2, 0], v.yaw_rate), eq(d[3, 0], v.action["acceleration"])))
    if c.fork(lt(absv(v.speed), 1)):
        ff = - v.MASS * v.lateral_speed - v.INERTIA_Z / v.LENGTH_A * v.yaw_rate
        fr = - v.MASS * v.lateral_speed + v.INERTIA_Z / v.LENGTH_A * v.yaw_rate
    else:
        ff, fr = forces(v, v.action["steering"])
    c.ensure("lateral acceleration", eq(d[4, 0], (ff + fr) / v.MASS - v.yaw_rate * v.speed))
    c.ensure("yaw acceleration", eq(d[5, 0], (v.LENGTH_A * ff - v.LENGTH_B * fr) / v.INERTIA_Z))


@contract("C10.damping", [DYN + "BicycleVehicle.derivative"])
def damping(c):
    """Below 1 m/s lateral speed and (for a symmetric axle layout) yaw rate decay whatever the steering."""
    v = _veh(c)
    v.LENGTH_B = v.LENGTH_A
    c.require(lt(absv(v.speed), 1))
    d = v.derivative
    c.ensure("lateral speed", eq(d[4, 0], -2 * v.lateral_speed - v.yaw_rate * v.speed))
    c.ensure("yaw rate", eq(d[5, 0], -2 * v.yaw_rate))


@contract("C10.step", [DYN + "BicycleVehicle.step", DYN + "BicycleVehicle.clip_actions"])
def step(c):
    """One Euler step of the derivative at the clipped command; steering within +-pi/2, yaw rate within the maximum."""
    v = _veh(c)
    net = AnyNetwork(c, lane=object())
    v.road = road(c, net)
    v.MAX_ANGULAR_SPEED = c.pos("wmax", s=(1, 8))
    dt = c.pos("dt", s=(0.01, .5))
    g = bare(c, "BicycleVehicle", pos=v.position.copy(), heading=v.heading, speed=v.speed)
    g.__dict__.update({k: x for k, x in v.__dict__.items() if k not in ("position", "road")})
    g.action = dict(v.action)
    M = v.MAX_SPEED
    a, s0 = v.action["acceleration"], v.speed
    if c.fork(v.crashed):  # The commands of a crashed vehicle are ignored
        a, g.action["steering"] = -s0, 0
    else:
        g.action["steering"] = clip(v.action["steering"], -c.pi / 2, c.pi / 2)
    g.action["acceleration"] = ite(lt(M, s0), vmin(a, M - s0), ite(lt(s0, -M), vmax(a, -M - s0), a))
    g.yaw_rate = clip(v.yaw_rate, -v.MAX_ANGULAR_SPEED, v.MAX_ANGULAR_SPEED)
    d = g.derivative
    v.step(dt)
    c.ensure("position", And(eq(v.position[0], g.position[0] + d[0, 0] * dt), eq(v.position[1], g.position[1] + d[1, 0] * dt)))
    c.ensure("heading", eq(v.heading, g.heading + g.yaw_rate * dt))
    c.ensure("speed", eq(v.speed, g.speed + g.action["acceleration"] * dt))
    c.ensure("lateral speed", eq(v.lateral_speed, g.lateral_speed + d[4, 0] * dt))
    c.ensure("yaw rate", eq(v.yaw_rate, g.yaw_rate + d[5, 0] * dt))
    c.ensure("steering in range", within(v.action["steering"], -c.pi / 2, c.pi / 2))
    c.ensure("lane looked up at the new state", And(len(net.calls) >= 1, eq(net.calls[-1][0], v.position),
                                                    eq(net.calls[-1][1], v.heading)))


@contract("C10.clip", [DYN + "BicycleVehicle.clip_actions"])
def clip_(c):
    """The yaw rate used by a step is within the configured maximum."""
    v = _veh(c)
    v.MAX_ANGULAR_SPEED = c.pos("wmax", s=(1, 8))
    r = v.yaw_rate
    v.clip_actions()
    c.ensure("yaw rate in range", within(v.yaw_rate, -v.MAX_ANGULAR_SPEED, v.MAX_ANGULAR_SPEED))
    c.ensure("clipped, not changed", Implies(within(r, -v.MAX_ANGULAR_SPEED, v.MAX_ANGULAR_SPEED), eq(v.yaw_rate, r)))


@contract("C10.lpv", LPV_T)
def lpv(c):
    """At every speed of at least 1 m/s, A = A0 + sum theta_i phi_i and B are the linearisation at zero slip."""
    v = _veh(c)
    c.require(le(1, v.speed))
    A0, phi, B_ = v.lateral_lpv_structure()
    A, B2 = v.lateral_lpv_dynamics()
    cf, cr, m, I, a, b, u = v.FRICTION_FRONT, v.FRICTION_REAR, v.MASS, v.INERTIA_Z, v.LENGTH_A, v.LENGTH_B, v.speed
    # d/dv, d/dr of atan2(v + a r, u) at zero are 1/u, a/u: the linearised slip angles
    want = [[-2 * (cf + cr) / (m * u), -2 * (cf * a - cr * b) / (m * u) - u],
            [-2 * (cf * a - cr * b) / (I * u), -2 * (cf * a * a + cr * b * b) / (I * u)]]
    c.ensure("A", eq(A, want))
    c.ensure("A0 + theta . phi", eq(A, [[A0[i, j] + cf * phi[0, i, j] + cr * phi[1, i, j] for j in range(2)] for i in range(2)]))
    c.ensure("theta", eq(v.theta, [cf, cr]))
    c.ensure("B", And(eq(B_, [[2 * cf / m], [2 * cf * a / I]]), eq(B2, B_)))


@contract("C10.lpv-derivative", LPV_T + [DYN + "BicycleVehicle.derivative"])
def lpv_derivative(c):
    """The linear model's slope is the partial derivative of the nonlinear model at zero slip (limit along each state)."""
    v = _veh(c)
    c.require(le(1, v.speed))
    A, B_ = v.lateral_lpv_dynamics()
    v.lateral_speed = v.yaw_rate = 0
    st = v.action["steering"]
    d = v.derivative
    c.ensure("steering enters linearly through B", And(eq(d[4, 0], B_[0, 0] * st), eq(d[5, 0], B_[1, 0] * st)))
    if c.sym:
        e = T.var("eps")
        for k, attr in enumerate(("lateral_speed", "yaw_rate")):
            v.lateral_speed = v.yaw_rate = 0
            setattr(v, attr, e)
            d = v.derivative
            z = {"eps": T.ZERO}
            c.ensure("slope in " + attr, And(*[eq(T.subst(T.deriv(d[4 + i, 0], e), z), A[i, k]) for i in range(2)]))
    else:
        for k, attr in enumerate(("lateral_speed", "yaw_rate")):
            out = []
            for h in (-1e-3, 1e-3):
                v.lateral_speed = v.yaw_rate = 0
                setattr(v, attr, h)
                d = v.derivative
                out.append((d[4, 0], d[5, 0]))
            for i in range(2):
                num, ref = (out[1][i] - out[0][i]) / 2e-3, A[i, k]
                c.ensure("slope in " + attr, abs(num - ref) < 1e-3 * (1 + abs(ref)))


@contract("C10.lpv-full", LPV_T)
def lpv_full(c):
    """The four-state form contains the two-state form unchanged, with y' = u psi + v and psi' = r."""
    v = _veh(c)
    A0, phi, B_ = v.lateral_lpv_structure()
    F0, fphi, FB = v.full_lateral_lpv_structure()
    FA, FB2 = v.full_lateral_lpv_dynamics()
    c.ensure("shapes", And(F0.shape == (4, 4), fphi.shape == (2, 4, 4), FB.shape == (4, 1)))
    c.ensure("kinematic rows", And(eq(F0[0], [0, v.speed, 1, 0]), eq(F0[1], [0, 0, 0, 1]),
                                   *[eq(fphi[k][:2], [[0] * 4] * 2) for k in range(2)]))
    c.ensure("lateral block", And(eq(F0[2:, 2:], A0), *[eq(fphi[k][2:, 2:], phi[k]) for k in range(2)]))
    c.ensure("no other coupling", And(eq(F0[2:, :2], [[0, 0]] * 2), *[eq(fphi[k][2:, :2], [[0, 0]] * 2) for k in range(2)]))
    c.ensure("B", And(eq(FB, [[0], [0], [B_[0, 0]], [B_[1, 0]]]), eq(FB2, FB)))
    cf, cr = v.FRICTION_FRONT, v.FRICTION_REAR
    c.ensure("A", eq(FA, [[F0[i, j] + cf * fphi[0][i, j] + cr * fphi[1][i, j] for j in range(4)] for i in range(4)]))


@contract("C10.derivative-linear", [DYN + "BicycleVehicle.derivative_linear"])
def derivative_linear(c):
    """The linear derivative is A x + B u at the vehicle's current speed with the same kinematic rows."""
    v = _veh(c)
    A, B_ = v.lateral_lpv_dynamics()
    d = v.derivative_linear
    e = v.derivative
    x = [v.lateral_speed, v.yaw_rate]
    st = v.action["steering"]
    vals = [d[i][0] if hasattr(d[i], "__len__") else d[i] for i in range(6)]
    c.ensure("kinematic rows", And(*[eq(vals[i], e[i, 0]) for i in range(4)]))
    c.ensure("lateral rows", And(*[eq(vals[4 + i], A[i, 0] * x[0] + A[i, 1] * x[1] + B_[i, 0] * st) for i in range(2)]))
