"""An independent, slow-and-plain reference of the flow model, used as an oracle.

It takes the recorded geometry, circulation and wake as given and recomputes what must
follow from them. Nothing here imports the code under test.
"""

import numpy as np

EPS = np.finfo(float).eps
LAMB = 1.25643
SQUIRE = 1e-4


def line_velocities(points, origins, terminations, strengths, ages=None, nu=0.0, signed=True):
    """Velocity at each point due to each line vortex: (points, vortices, 3)."""
    points = np.asarray(points, float)
    if len(origins) == 0:
        return np.zeros((len(points), 0, 3))
    r1 = origins[None, :, :] - points[:, None, :]
    r2 = terminations[None, :, :] - points[:, None, :]
    r0 = np.linalg.norm(terminations - origins, axis=1)
    age = np.zeros(len(origins)) if ages is None else ages
    rc = 2 * np.sqrt(LAMB * (nu + SQUIRE * np.abs(strengths)) * age)
    cr = np.cross(r1, r2)
    cr2 = np.einsum("ijk,ijk->ij", cr, cr)
    n1 = np.linalg.norm(r1, axis=2)
    n2 = np.linalg.norm(r2, axis=2)
    dot = np.einsum("ijk,ijk->ij", r1, r2)
    skip = (n1 < EPS) | (n2 < EPS) | (cr2 < EPS)
    with np.errstate(all="ignore"):
        c = strengths[None, :] / (4 * np.pi) * (n1 + n2) * (n1 * n2 - dot) / (n1 * n2 * (cr2 + (r0**2 * rc**2)[None, :]))
    c = np.where(skip, 0.0, c)
    return c[:, :, None] * cr


def ring_velocities(points, rings, strengths, ages=None, nu=0.0):
    """rings: (n, 4, 3) as front right, front left, back left, back right."""
    fr, fl, bl, br = (rings[:, i] for i in range(4))
    v = 0.0
    for o, t in ((br, fr), (fr, fl), (fl, bl), (bl, br)):
        v = v + line_velocities(points, o, t, strengths, ages, nu)
    return v


def horseshoe_velocities(points, br, fr, fl, bl, strengths):
    v = 0.0
    for o, t in ((br, fr), (fr, fl), (fl, bl)):
        v = v + line_velocities(points, o, t, strengths)
    return v


def rotation(alpha, beta):
    """Wind axes to geometry axes."""
    a, b = np.radians(alpha), np.radians(beta)
    ra = np.array([[np.cos(a), 0, -np.sin(a)], [0, 1, 0], [np.sin(a), 0, np.cos(a)]])
    rb = np.array([[np.cos(b), -np.sin(b), 0], [np.sin(b), np.cos(b), 0], [0, 0, 1]])
    return np.diag([-1.0, 1.0, -1.0]) @ ra @ rb


def freestream(op):
    return rotation(op.alpha, op.beta) @ np.array([-1.0, 0.0, 0.0]) * op.velocity


class Panels:
    """Arrays describing every panel of a list of airplanes, in the documented order."""

    def __init__(self, airplanes):
        corners, te, le, re, lft, area, normal, xyz, own = [], [], [], [], [], [], [], [], []
        self.wings = []  # (airplane, first panel, chordwise, spanwise, wing)
        n = 0
        for ai, a in enumerate(airplanes):
            for w in a.wings:
                nc, ns = w.num_chordwise_panels, w.num_spanwise_panels
                self.wings.append((ai, n, nc, ns, w))
                for i in range(nc):
                    for j in range(ns):
                        p = w.panels[i, j]
                        fr = np.array(p.front_right_vertex, float)
                        fl = np.array(p.front_left_vertex, float)
                        bl = np.array(p.back_left_vertex, float)
                        br = np.array(p.back_right_vertex, float)
                        corners.append([fr, fl, bl, br])
                        te.append(i == nc - 1)
                        le.append(i == 0)
                        re.append(j == ns - 1)
                        lft.append(j == 0)
                        c = np.cross(fr - bl, fl - br)
                        m = np.linalg.norm(c)
                        area.append(m / 2)
                        normal.append(c / m)
                        xyz.append([a.x_ref, a.y_ref, a.z_ref])
                        own.append(ai)
                        n += 1
        self.n = n
        self.corners = np.array(corners)
        self.te = np.array(te)
        self.le = np.array(le)
        self.right_edge = np.array(re)
        self.left_edge = np.array(lft)
        self.area = np.array(area)
        self.normal = np.array(normal)
        self.xyz = np.array(xyz)
        self.own = np.array(own)
        fr, fl, bl, br = (self.corners[:, i] for i in range(4))
        self.collocation = 0.5 * ((br + 0.25 * (fr - br)) + (fl + 0.75 * (bl - fl)))
        self.vfr = fr + 0.25 * (br - fr)
        self.vfl = fl + 0.25 * (bl - fl)
        self.seeds = (bl + 0.5 * (br - bl))[self.te]

    def rings(self, te_shift):
        """Bound rings; trailing-edge rings extend past the panel by te_shift."""
        fr, fl, bl, br = (self.corners[:, i] for i in range(4))
        out = np.zeros((self.n, 4, 3))
        out[:, 0] = self.vfr
        out[:, 1] = self.vfl
        for ai, first, nc, ns, w in self.wings:
            for i in range(nc):
                for j in range(ns):
                    p = first + i * ns + j
                    if i < nc - 1:
                        q = p + ns
                        out[p, 2] = self.vfl[q]
                        out[p, 3] = self.vfr[q]
                    else:
                        out[p, 2] = self.vfl[p] + (bl[p] - fl[p]) + te_shift
                        out[p, 3] = self.vfr[p] + (br[p] - fr[p]) + te_shift
        return out

    def effective(self, g):
        """Effective strengths of right, front and left legs."""
        r, f, l = g.copy(), g.copy(), g.copy()
        for ai, first, nc, ns, w in self.wings:
            for i in range(nc):
                for j in range(ns):
                    p = first + i * ns + j
                    if j < ns - 1:
                        r[p] = g[p] - g[p + 1]
                    if i > 0:
                        f[p] = g[p] - g[p - ns]
                    if j > 0:
                        l[p] = g[p] - g[p - 1]
        return r, f, l


def legs(rings):
    """(centre, vector) of right, front and left legs of rings."""
    fr, fl, bl, br = (rings[:, i] for i in range(4))
    return (
        ((br + fr) / 2, fr - br),
        ((fr + fl) / 2, fl - fr),
        ((fl + bl) / 2, bl - fl),
    )


def coefficients(force_w, moment_w, q, s, c, b):
    f = np.array([-force_w[0], force_w[1], -force_w[2]]) / q / s
    m = moment_w / q / s / np.array([b, c, b])
    return f, m


def close(a, b, scale, tol):
    """Largest |a-b| relative to scale, and whether it is within tol."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False, f"shape {a.shape} != {b.shape}"
    if a.size == 0:
        return True, ""
    if np.any(~np.isfinite(a)) or np.any(~np.isfinite(b)):
        return False, "not finite"
    err = float(np.max(np.abs(a - b)))
    return err <= tol * max(scale, 1e-300), f"max difference {err:.3g} at scale {scale:.3g}"


def amax(x):
    x = np.asarray(x, float)
    return float(np.max(np.abs(x))) if x.size else 0.0


# ------------------------------------------------------------------ unsteady history


class History:
    """The recorded history of one unsteady solve, as plain arrays."""

    def __init__(self, problem):
        self.dt = problem.delta_time
        self.steps = []
        last = None
        for sp in problem.steady_problems:
            st = Step(sp, self.dt)
            self.steps.append(st)


class Step:
    def __init__(self, sp, dt):
        self.airplanes = sp.airplanes
        self.op = sp.operating_point
        self.panels = Panels(sp.airplanes)
        self.u = freestream(self.op)
        self.rings = self.panels.rings(self.u * dt * 0.25)
        g = []
        rec = []
        for ai, first, nc, ns, w in self.panels.wings:
            for p in np.ravel(w.panels):
                r = p.ring_vortex
                g.append(np.nan if r is None or r.strength is None else float(r.strength))
                rec.append(
                    np.full((4, 3), np.nan)
                    if r is None
                    else [r.front_right_vertex, r.front_left_vertex, r.back_left_vertex, r.back_right_vertex]
                )
        self.gamma = np.array(g)
        self.recorded_rings = np.array(rec, dtype=float)


def solver_wake(solver, k):
    """The wake recorded by the solver for step k: rings, strengths, ages."""
    rings = np.stack(
        [
            np.asarray(getattr(solver, n)[k], float).reshape(-1, 3)
            for n in (
                "wake_ring_vortex_front_right_vertices_list",
                "wake_ring_vortex_front_left_vertices_list",
                "wake_ring_vortex_back_left_vertices_list",
                "wake_ring_vortex_back_right_vertices_list",
            )
        ],
        axis=1,
    )
    s = np.asarray(solver.wake_ring_vortex_strengths_list[k], float)
    a = np.asarray(solver.wake_ring_vortex_ages_list[k], float)
    return rings, s, a


def solution_velocity(points, step, wake):
    """Velocity induced by freestream, bound rings and the recorded wake."""
    rings, s, a = wake
    v = np.tile(step.u, (len(points), 1))
    v = v + ring_velocities(points, step.rings, step.gamma).sum(axis=1)
    if len(s):
        v = v + ring_velocities(points, rings, s, a, step.op.nu).sum(axis=1)
    return v


def check_wake(ctx, solver, hist, prescribed, tol=1e-9, vtol=1e-7):
    """C03: the recorded wake is an exact memory of what was shed and where it went."""
    dt = hist.dt
    n = len(hist.steps)
    for name in (
        "num_wake_ring_vortices_list",
        "wake_ring_vortex_strengths_list",
        "wake_ring_vortex_ages_list",
        "wake_ring_vortex_front_right_vertices_list",
        "wake_ring_vortex_back_left_vertices_list",
    ):
        ctx.check(len(getattr(solver, name)) == n, "wake-list-length", lambda: f"{name} has {len(getattr(solver, name))} entries for {n} steps")
    prev = None
    for k, st in enumerate(hist.steps):
        span_total = sum(w[3] for w in st.panels.wings)
        rings, s, a = solver_wake(solver, k)
        ctx.check(
            len(s) == len(a) == len(rings) == k * span_total == int(solver.num_wake_ring_vortices_list[k]),
            "wake-count",
            lambda: f"step {k}: {len(s)} strengths, {len(a)} ages, {len(rings)} rings, expected {k * span_total}",
        )
        pos = 0
        wings = []
        size = amax(st.panels.corners) + k * dt * amax(st.u) + 1e-12
        for wi, (ai, first, nc, ns, w) in enumerate(st.panels.wings):
            m = k * ns
            wr = rings[pos : pos + m].reshape(k, ns, 4, 3)
            ws = s[pos : pos + m].reshape(k, ns)
            wa = a[pos : pos + m].reshape(k, ns)
            pos += m
            wings.append((wr, ws, wa))
            where = f"step {k}, wing {wi}"
            # The wing's own record agrees with the solver's.
            own = np.ravel(w.wake_ring_vortices)
            ctx.check(
                tuple(w.wake_ring_vortices.shape) == (k, ns) and all(r is not None for r in own),
                "wing-wake-shape",
                lambda: f"{where}: wing records a wake of shape {w.wake_ring_vortices.shape}, expected {(k, ns)}",
            )
            if k:
                orr = np.array([[r.front_right_vertex, r.front_left_vertex, r.back_left_vertex, r.back_right_vertex] for r in own], float).reshape(k, ns, 4, 3)
                os_ = np.array([r.strength for r in own], float).reshape(k, ns)
                oa = np.array([r.age for r in own], float).reshape(k, ns)
                for nm, x, y, sc in (("corners", orr, wr, size), ("strengths", os_, ws, amax(ws)), ("ages", oa, wa, k * dt)):
                    ok, why = close(x, y, sc, tol)
                    ctx.check(ok, "wing-wake-differs", lambda: f"{where}: the wing's recorded wake {nm} differ from the solver's: {why}")
                vv = np.asarray(w.wake_ring_vortex_vertices, float)
                ctx.check(vv.shape == (k + 1, ns + 1, 3), "wing-wake-shape", lambda: f"{where}: wake vertices {vv.shape}")
                grid = np.concatenate([np.concatenate([wr[:, :, 1], wr[:, -1:, 0]], axis=1), np.concatenate([wr[-1:, :, 2], wr[-1:, -1:, 3]], axis=1)], axis=0)
                ok, why = close(vv, grid, size, tol)
                ctx.check(ok, "wing-wake-differs", lambda: f"{where}: the wing's wake vertex grid differs from its rings: {why}")
            if k == 0:
                continue
            # Newest row joined to the trailing edge rings of this step.
            # (Next to the end of a deflected control surface the wing itself has a step:
            # there the wake may start at either neighbour's corner.)
            te = st.rings[first + (nc - 1) * ns : first + nc * ns]
            fl_err = np.abs(wr[0, :, 1] - te[:, 2]).max(axis=1)
            fr_err = np.abs(wr[0, :, 0] - te[:, 3]).max(axis=1)
            if ns > 1:
                fl_err[1:] = np.minimum(fl_err[1:], np.abs(wr[0, 1:, 1] - te[:-1, 3]).max(axis=1))
                fr_err[:-1] = np.minimum(fr_err[:-1], np.abs(wr[0, :-1, 0] - te[1:, 2]).max(axis=1))
            err = max(fl_err.max(), fr_err.max())
            ctx.check(bool(err <= tol * size), "wake-not-attached", lambda: f"{where}: newest wake row is {err:.3g} away from the trailing edge")
            # Neighbouring rings share corners.
            for r in range(k):
                if r + 1 < k:
                    ok, why = close(wr[r, :, 3], wr[r + 1, :, 0], size, tol)
                    ok2, why2 = close(wr[r, :, 2], wr[r + 1, :, 1], size, tol)
                    ctx.check(ok and ok2, "wake-row-gap", lambda: f"{where}: wake rows {r} and {r + 1} do not share corners: {why} {why2}")
                if ns > 1:
                    ok, why = close(wr[r, :-1, 0], wr[r, 1:, 1], size, tol)
                    ok2, why2 = close(wr[r, :-1, 3], wr[r, 1:, 2], size, tol)
                    ctx.check(ok and ok2, "wake-column-gap", lambda: f"{where}: wake row {r} has a spanwise gap: {why} {why2}")
                # Circulation and age are those of the moment of shedding.
                src = hist.steps[k - 1 - r]
                _, f2, nc2, ns2, _ = src.panels.wings[wi]
                shed = src.gamma[f2 + (nc2 - 1) * ns2 : f2 + nc2 * ns2]
                ok, why = close(ws[r], shed, amax(shed), tol)
                ctx.check(ok, "wake-strength", lambda: f"{where}: row {r} does not carry the circulation shed at step {k - 1 - r}: {why}")
                ok, why = close(wa[r], np.full(ns, r * dt), max(r, 1) * dt, tol)
                ctx.check(ok, "wake-age", lambda: f"{where}: row {r} has age {wa[r].tolist()} expected {r * dt}")
        # Motion since the previous step.
        if prev is not None:
            pst, pwings, pwake = prev
            for wi in range(len(wings)):
                wr = wings[wi][0]
                where = f"step {k - 1} to {k}, wing {wi}"
                if k == 1:
                    old = wr[0, :, 0:2]  # front corners at step 1
                    new = wr[0, :, [3, 2]].transpose(1, 0, 2)
                else:
                    pr = pwings[wi][0]
                    old = pr
                    new = wr[1:]
                old_p = old.reshape(-1, 3)
                new_p = new.reshape(-1, 3)
                if k > 1:
                    # The oldest corners too: back corners of the last old row are in `old`;
                    # the back corners of the newest row are the fronts of row 1.
                    pass
                if prescribed:
                    v = np.tile(pst.u, (len(old_p), 1))
                else:
                    v = solution_velocity(old_p, pst, pwake)
                ok, why = close(new_p, old_p + v * dt, amax(v) * dt + size * 1e-7, vtol)
                ctx.check(ok, "wake-motion", lambda: f"{where}: wake corners did not move with the {'freestream' if prescribed else 'local velocity'}: {why}")
        prev = (st, wings, (rings, s, a))


def check_step_flow(ctx, solver, hist, tol=1e-8):
    """C04 (a): every recorded circulation satisfies no-penetration."""
    dt = hist.dt
    for k, st in enumerate(hist.steps):
        P = st.panels
        ok, why = close(st.recorded_rings, st.rings, amax(P.corners) + amax(st.u) * dt, 1e-9)
        ctx.check(ok, "bound-rings", lambda: f"step {k}: bound rings are not where the panels put them: {why}")
        ctx.check(bool(np.all(np.isfinite(st.gamma))), "circulation-missing", f"step {k}: some panel has no circulation")
        wake = solver_wake(solver, k)
        flap = np.zeros((P.n, 3))
        if k:
            flap = -(P.collocation - hist.steps[k - 1].panels.collocation) / dt
        parts = [
            np.tile(st.u, (P.n, 1)),
            flap,
            ring_velocities(P.collocation, wake[0], wake[1], wake[2], st.op.nu).sum(axis=1) if len(wake[1]) else np.zeros((P.n, 3)),
        ]
        bound = ring_velocities(P.collocation, st.rings, st.gamma)
        through = [np.einsum("ij,ij->i", v, P.normal) for v in parts]
        infl = np.einsum("ijk,ik->ij", bound, P.normal)
        res = sum(through) + infl.sum(axis=1)
        scale = np.max(np.abs(infl).sum(axis=1) + sum(np.abs(t) for t in through))
        # A wing that the flow only slides along has no circulation but rounding errors.
        bad = np.max(np.abs(res)) / max(scale, 1e-6 * amax(st.u))
        ctx.check(bad <= tol, "penetration", lambda: f"step {k}: normal velocity through a panel is {np.max(np.abs(res)):.3g} m/s (scale {scale:.3g})")


def check_step_loads(ctx, solver, hist, first_results, tol=1e-7):
    """C04 (b): recorded loads follow from the recorded circulation."""
    dt = hist.dt
    for k, st in enumerate(hist.steps):
        P = st.panels
        if k < first_results[-1]:
            for ai, a in enumerate(st.airplanes if k < first_results[0] else ()):
                ctx.check(a.total_near_field_force_wind_axes is None, "loads-before-results", f"step {k}: airplane {ai} has loads although only final results were asked for")
            continue
        wake = solver_wake(solver, k)
        prev = hist.steps[k - 1] if k else None
        eff = P.effective(st.gamma)
        L = legs(st.rings)
        pl = legs(prev.rings) if prev else None
        f = np.zeros((P.n, 3))
        m = np.zeros((P.n, 3))
        big_f = 0.0
        for i in range(3):
            c, v = L[i]
            vel = solution_velocity(c, st, wake)
            if prev:
                vel = vel - (c - pl[i][0]) / dt
            ff = st.op.density * eff[i][:, None] * np.cross(vel, v)
            f += ff
            m += np.cross(c - P.xyz, ff)
            big_f = max(big_f, amax(ff))
        dg = st.gamma - (prev.gamma if prev else 0.0)
        uf = st.op.density * (dg * P.area)[:, None] * P.normal / dt
        f += uf
        m += np.cross(P.collocation - P.xyz, uf)
        big_f = max(big_f, amax(uf))
        check_loads(ctx, f"step {k}", st.airplanes, st.op, P, f, m, big_f, tol)


def check_loads(ctx, where, airplanes, op, P, f, m, big_f, tol):
    """Panel and airplane loads and coefficients against reference forces and moments."""
    q = 0.5 * op.density * op.velocity**2
    big_f = max(big_f, 1e-7 * q * amax(P.area))
    R = rotation(op.alpha, op.beta).T
    arm = amax(P.corners - P.xyz[:, None, :]) + 1e-9
    allp = [p for a in airplanes for w in a.wings for p in np.ravel(w.panels)]
    rec = {}
    for n in (
        "near_field_force_geometry_axes",
        "near_field_moment_geometry_axes",
        "near_field_force_wind_axes",
        "near_field_moment_wind_axes",
        "induced_drag_coefficient",
        "side_force_coefficient",
        "lift_coefficient",
    ):
        vals = [getattr(p, n) for p in allp]
        ctx.check(all(v is not None for v in vals), "loads-missing", lambda: f"{where}: a panel has no {n}")
        if any(v is None for v in vals):
            return
        rec[n] = np.array(vals, float)
    fw, mw = f @ R.T, m @ R.T
    panel_c = np.stack([-fw[:, 0], fw[:, 1], -fw[:, 2]], axis=1) / q / P.area[:, None]
    sc = big_f / q / P.area.min()
    for n, want, scale in (
        ("near_field_force_geometry_axes", f, big_f),
        ("near_field_moment_geometry_axes", m, big_f * arm),
        ("near_field_force_wind_axes", fw, big_f),
        ("near_field_moment_wind_axes", mw, big_f * arm),
        ("induced_drag_coefficient", panel_c[:, 0], sc),
        ("side_force_coefficient", panel_c[:, 1], sc),
        ("lift_coefficient", panel_c[:, 2], sc),
    ):
        ok, why = close(rec[n], want, scale, tol)
        ctx.check(ok, "panel-loads", lambda: f"{where}: panel {n} does not follow from the circulation: {why}")
    for ai, a in enumerate(airplanes):
        mine = P.own == ai
        F, M = fw[mine].sum(axis=0), mw[mine].sum(axis=0)
        cf, cm = coefficients(F, M, q, a.s_ref, a.c_ref, a.b_ref)
        n = int(mine.sum())
        cs = 1 / q / a.s_ref
        for name, want, scale in (
            ("total_near_field_force_wind_axes", F, big_f * n),
            ("total_near_field_moment_wind_axes", M, big_f * n * arm),
            ("total_near_field_force_coefficients_wind_axes", cf, big_f * n * cs),
            ("total_near_field_moment_coefficients_wind_axes", cm, big_f * n * arm * cs / min(a.b_ref, a.c_ref)),
        ):
            got = getattr(a, name)
            ctx.check(got is not None, "loads-missing", f"{where}: airplane {ai} has no {name}")
            if got is None:
                continue
            ok, why = close(got, want, scale, tol)
            ctx.check(ok, "airplane-loads", lambda: f"{where}: airplane {ai} {name} is {np.asarray(got).tolist()}, expected {want.tolist()}: {why}")


def check_streamlines(ctx, solver, hist, expected, tol=1e-7):
    pts = solver.streamline_points
    if not expected:
        ctx.check(pts is None, "streamlines-unasked", "streamlines were recorded although they were not asked for")
        return
    st = hist.steps[-1]
    wake = solver_wake(solver, len(hist.steps) - 1)
    check_streamline_points(ctx, pts, st.panels, lambda p: solution_velocity(p, st, wake), tol)


def check_streamline_points(ctx, pts, P, velocity, tol=1e-7):
    ctx.check(pts is not None, "streamlines-missing", "no streamlines were recorded")
    pts = np.asarray(pts, float)
    ctx.check(
        pts.ndim == 3 and pts.shape[1:] == (len(P.seeds), 3) and pts.shape[0] >= 2,
        "streamline-shape",
        lambda: f"streamlines have shape {pts.shape} for {len(P.seeds)} trailing edge panels",
    )
    ok, why = close(pts[0], P.seeds, amax(P.corners), 1e-9)
    ctx.check(ok, "streamline-seeds", lambda: f"streamlines do not start at the trailing edge midpoints: {why}")
    for i in range(len(pts) - 1):
        v = velocity(pts[i])
        ok, why = close(pts[i + 1], pts[i] + v * 0.02, amax(v) * 0.02, tol)
        ctx.check(ok, "streamline-step", lambda: f"streamline step {i} does not follow the local velocity: {why}")


# ------------------------------------------------------------------ finals


def check_finals(ctx, problem, spec_static, first_avgs, tol=1e-9):
    """C05: final loads are the reduction of the recorded per-step loads.

    first_avgs: the admissible first averaging steps (one, but for rounding)."""
    from .core import Ctx, PropertyViolated

    for f in first_avgs[:-1]:
        try:
            return _check_finals(Ctx(), problem, spec_static, f, tol)
        except PropertyViolated:
            pass
    return _check_finals(ctx, problem, spec_static, first_avgs[-1], tol)


def _check_finals(ctx, problem, spec_static, first_avg, tol):
    steps = problem.steady_problems
    na = len(steps[0].airplanes)
    kinds = (
        ("near_field_forces_wind_axes", "total_near_field_force_wind_axes"),
        ("near_field_force_coefficients_wind_axes", "total_near_field_force_coefficients_wind_axes"),
        ("near_field_moments_wind_axes", "total_near_field_moment_wind_axes"),
        ("near_field_moment_coefficients_wind_axes", "total_near_field_moment_coefficients_wind_axes"),
    )
    for suffix, total in kinds:
        for pre in ("final_", "final_mean_", "final_rms_"):
            lst = getattr(problem, pre + suffix)
            want = na if (pre == "final_") == spec_static else 0
            ctx.check(len(lst) == want, "final-count", lambda: f"{pre + suffix} has {len(lst)} entries for {na} airplanes, expected {want}")
        for ai in range(na):
            hist = []
            for k in range(first_avg, len(steps)):
                v = getattr(steps[k].airplanes[ai], total)
                ctx.check(v is not None, "averaged-step-without-loads", f"step {k} is averaged but airplane {ai} has no {total}")
                hist.append(np.asarray(v, float))
            hist = np.array(hist)
            if spec_static:
                wants = {"final_": hist[-1]}
            else:
                wants = {"final_mean_": hist.sum(axis=0) / len(hist), "final_rms_": np.sqrt((hist * hist).sum(axis=0) / len(hist))}
            for pre, want in wants.items():
                got = getattr(problem, pre + suffix)[ai]
                ok, why = close(got, want, amax(hist), tol)
                ctx.check(ok, "final-value", lambda: f"airplane {ai} {pre + suffix} is {np.asarray(got).tolist()}, expected {np.asarray(want).tolist()} over steps {first_avg}..{len(steps) - 1}: {why}")


# ------------------------------------------------------------------ steady solvers


def check_steady(ctx, solver, kind, airplanes, op, tol=1e-7, streamlines=True):
    """C14: a steady solve satisfies no-penetration and its loads follow from it."""
    P = Panels(airplanes)
    u = freestream(op)
    udir = u / op.velocity
    inf = np.concatenate([np.full((nc * ns, 1), w.span * 20.0) for _, _, nc, ns, w in P.wings])
    allp = [p for a in airplanes for w in a.wings for p in np.ravel(w.panels)]
    if kind == "ring":
        g = np.array([np.nan if p.ring_vortex is None or p.ring_vortex.strength is None else p.ring_vortex.strength for p in allp], float)
        rings = P.rings(np.zeros(3))
        te = P.te
        hb = (rings[te, 3], rings[te, 2])
        hi = (hb[0] + udir * inf[te], hb[1] + udir * inf[te])

        def induced(points):
            v = ring_velocities(points, rings, g)
            v[:, te] += horseshoe_velocities(points, hi[0], hb[0], hb[1], hi[1], g[te])
            return v

    else:
        g = np.array([np.nan if p.horseshoe_vortex is None or p.horseshoe_vortex.strength is None else p.horseshoe_vortex.strength for p in allp], float)
        bl = P.vfl + udir * inf
        br = P.vfr + udir * inf

        def induced(points):
            return horseshoe_velocities(points, br, P.vfr, P.vfl, bl, g)

    ctx.check(bool(np.all(np.isfinite(g))), "circulation-missing", "some panel has no circulation")
    infl = np.einsum("ijk,ik->ij", induced(P.collocation), P.normal)
    fs = P.normal @ u
    res = infl.sum(axis=1) + fs
    scale = np.max(np.abs(infl).sum(axis=1) + np.abs(fs))
    ctx.check(np.max(np.abs(res)) <= 1e-7 * max(scale, 1e-7 * amax(u)), "penetration", lambda: f"normal velocity through a panel is {np.max(np.abs(res)):.3g} m/s (scale {scale:.3g})")

    def velocity(points):
        return induced(points).sum(axis=1) + u

    f = np.zeros((P.n, 3))
    m = np.zeros((P.n, 3))
    big = 0.0
    if kind == "ring":
        eff = P.effective(g)
        for (c, v), e in zip(legs(rings), eff):
            ff = op.density * e[:, None] * np.cross(velocity(c), v)
            f += ff
            m += np.cross(c - P.xyz, ff)
            big = max(big, amax(ff))
    else:
        c = (P.vfr + P.vfl) / 2
        f = op.density * g[:, None] * np.cross(velocity(c), P.vfl - P.vfr)
        m = np.cross(c - P.xyz, f)
        big = amax(f)
    check_loads(ctx, f"steady {kind}", airplanes, op, P, f, m, big, tol)
    if streamlines:
        check_streamline_points(ctx, solver.streamline_points, P, velocity, tol)
