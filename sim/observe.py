"""Extracts what a user can observe from solved problems, and compares observations."""

import numpy as np

FINALS = [
    "final_near_field_forces_wind_axes",
    "final_near_field_force_coefficients_wind_axes",
    "final_near_field_moments_wind_axes",
    "final_near_field_moment_coefficients_wind_axes",
    "final_mean_near_field_forces_wind_axes",
    "final_mean_near_field_force_coefficients_wind_axes",
    "final_mean_near_field_moments_wind_axes",
    "final_mean_near_field_moment_coefficients_wind_axes",
    "final_rms_near_field_forces_wind_axes",
    "final_rms_near_field_force_coefficients_wind_axes",
    "final_rms_near_field_moments_wind_axes",
    "final_rms_near_field_moment_coefficients_wind_axes",
]

WAKE_LISTS = [
    "wake_ring_vortex_strengths_list",
    "wake_ring_vortex_ages_list",
    "wake_ring_vortex_front_right_vertices_list",
    "wake_ring_vortex_front_left_vertices_list",
    "wake_ring_vortex_back_left_vertices_list",
    "wake_ring_vortex_back_right_vertices_list",
]

TOTALS = [
    "total_near_field_force_wind_axes",
    "total_near_field_force_coefficients_wind_axes",
    "total_near_field_moment_wind_axes",
    "total_near_field_moment_coefficients_wind_axes",
]

PANEL_RESULTS = [
    "near_field_force_geometry_axes",
    "near_field_moment_geometry_axes",
    "near_field_force_wind_axes",
    "near_field_moment_wind_axes",
    "induced_drag_coefficient",
    "side_force_coefficient",
    "lift_coefficient",
]

OP = ["density", "velocity", "alpha", "beta", "external_thrust", "nu"]


def arr(x):
    """A float array, or None if the value (or any part of it) is None."""
    if x is None:
        return None
    if isinstance(x, (list, tuple)) and any(v is None for v in x):
        return None
    try:
        return np.array(x, dtype=float)
    except (TypeError, ValueError):
        return "unreadable"


def _get(o, name):
    return getattr(o, name, "missing")


def panels_of(airplane):
    for wing in airplane.wings:
        for p in np.ravel(wing.panels):
            yield p


def panel_geometry(airplane):
    return np.array(
        [
            np.concatenate(
                [
                    p.front_right_vertex,
                    p.front_left_vertex,
                    p.back_left_vertex,
                    p.back_right_vertex,
                ]
            )
            for p in panels_of(airplane)
        ]
    )


def ring_geometry(airplane):
    out = []
    for p in panels_of(airplane):
        r = p.ring_vortex
        if r is None:
            return None
        out.append(
            np.concatenate(
                [r.front_right_vertex, r.front_left_vertex, r.back_left_vertex, r.back_right_vertex]
            )
        )
    return np.array(out)


def airplane_results(airplane):
    d = {k: arr(_get(airplane, k)) for k in TOTALS}
    for k in PANEL_RESULTS:
        d["panel." + k] = arr([_get(p, k) for p in panels_of(airplane)])
    return d


def airplane_params(airplane):
    d = {}
    for k in ("name",):
        d[k] = airplane.name
    for k in ("x_ref", "y_ref", "z_ref", "weight", "s_ref", "c_ref", "b_ref", "num_panels"):
        d[k] = arr(_get(airplane, k))
    d["xyz_ref"] = arr(airplane.xyz_ref)
    for i, w in enumerate(airplane.wings):
        q = f"wing{i}."
        d[q + "name"] = w.name
        d[q + "chordwise_spacing"] = w.chordwise_spacing
        for k in ("x_le", "y_le", "z_le", "leading_edge", "unit_normal_vector", "unit_chordwise_vector", "num_chordwise_panels", "num_spanwise_panels", "num_panels"):
            d[q + k] = arr(_get(w, k))
        d[q + "symmetric"] = bool(w.symmetric)
        d[q + "nsec"] = len(w.wing_cross_sections)
        for j, s in enumerate(w.wing_cross_sections):
            d.update(section_params(s, f"{q}sec{j}."))
    return d


def section_params(s, q):
    d = {}
    for k in ("x_le", "y_le", "z_le", "chord", "twist", "control_surface_hinge_point", "control_surface_deflection", "num_spanwise_panels"):
        d[q + k] = arr(_get(s, k))
    for k in ("leading_edge", "unit_normal_vector"):
        d[q + k] = arr(_get(s, k))
    d[q + "control_surface_type"] = s.control_surface_type
    d[q + "spanwise_spacing"] = s.spanwise_spacing
    d[q + "airfoil"] = s.airfoil.name
    d[q + "airfoil.coordinates"] = arr(s.airfoil.coordinates)
    d[q + "airfoil.mcl"] = arr(s.airfoil.mcl_coordinates)
    return d


def op_params(op):
    return {k: arr(_get(op, k)) for k in OP}


def unsteady(solver):
    """Everything an unsteady run leaves for its user, step by step."""
    prob = solver.unsteady_problem
    d = {}
    steps = prob.steady_problems
    d["num_steps"] = len(steps)
    for k, sp in enumerate(steps):
        for i, a in enumerate(sp.airplanes):
            q = f"step{k}.airplane{i}."
            for n, v in airplane_results(a).items():
                d[q + n] = v
            d[q + "panels"] = panel_geometry(a)
            d[q + "rings"] = ring_geometry(a)
            d[q + "circulation"] = arr(
                [_get(p.ring_vortex, "strength") if p.ring_vortex is not None else None for p in panels_of(a)]
            )
            d[q + "refs"] = arr([a.s_ref, a.c_ref, a.b_ref])
            d[q + "xyz_ref"] = arr(a.xyz_ref)
            for j, w in enumerate(a.wings):
                d.update(wing_wake(w, f"{q}wing{j}."))
        for n, v in op_params(sp.operating_point).items():
            d[f"step{k}.op.{n}"] = v
    d["len_num_wake"] = len(solver.num_wake_ring_vortices_list)
    for n in WAKE_LISTS:
        lst = getattr(solver, n)
        d["len_" + n] = len(lst)
        for k in range(min(len(lst), len(steps))):
            d[f"step{k}.{n}"] = arr(lst[k])
    d.update(finals(prob))
    d["streamlines"] = arr(solver.streamline_points)
    return d


def wing_wake(w, q):
    d = {}
    rings = w.wake_ring_vortices
    d[q + "wake_shape"] = list(rings.shape)
    d[q + "wake_vertices"] = arr(w.wake_ring_vortex_vertices)
    flat = np.ravel(rings)
    if all(r is not None for r in flat):
        d[q + "wake_strengths"] = arr([r.strength for r in flat])
        d[q + "wake_ages"] = arr([r.age for r in flat])
        d[q + "wake_corners"] = arr(
            [
                np.concatenate([r.front_right_vertex, r.front_left_vertex, r.back_left_vertex, r.back_right_vertex])
                for r in flat
            ]
        )
    else:
        d[q + "wake_strengths"] = None
    return d


def finals(prob):
    d = {}
    for n in FINALS:
        lst = getattr(prob, n)
        d["len_" + n] = len(lst)
        d[n] = arr(list(lst)) if len(lst) else None
    return d


def steady(solver, kind):
    d = {}
    airplanes = solver.airplanes
    for i, a in enumerate(airplanes):
        q = f"airplane{i}."
        for n, v in airplane_results(a).items():
            d[q + n] = v
        d[q + "panels"] = panel_geometry(a)
        d[q + "refs"] = arr([a.s_ref, a.c_ref, a.b_ref])
        if kind == "ring":
            d[q + "circulation"] = arr([p.ring_vortex.strength for p in panels_of(a)])
            d[q + "rings"] = ring_geometry(a)
        else:
            d[q + "circulation"] = arr([p.horseshoe_vortex.strength for p in panels_of(a)])
    d["strengths"] = arr(solver.vortex_strengths)
    d["streamlines"] = arr(solver.streamline_points)
    return d


def results(solver, kind):
    return unsteady(solver) if kind == "unsteady" else steady(solver, kind)


def diff(a, b, rtol=1e-9, ignore=(), only=None, limit=3):
    """Names (with reason) of the entries in which two observations differ."""
    out = []
    keys = list(a) + [k for k in b if k not in a]
    for k in keys:
        if any(s in k for s in ignore):
            continue
        if only is not None and not any(s in k for s in only):
            continue
        if k not in a or k not in b:
            out.append((k, "present in one only"))
        else:
            why = differs(a[k], b[k], rtol)
            if why:
                out.append((k, why))
        if len(out) >= limit:
            break
    return out


def differs(x, y, rtol=1e-9):
    if x is None or y is None:
        return None if x is None and y is None else f"{_s(x)} vs {_s(y)}"
    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
        if x.shape != y.shape:
            return f"shape {x.shape} vs {y.shape}"
        if x.size == 0:
            return None
        nx, ny = np.isnan(x), np.isnan(y)
        if np.any(nx != ny):
            return "NaN in one only"
        with np.errstate(all="ignore"):
            fx, fy = np.where(nx, 0.0, x), np.where(ny, 0.0, y)
            if np.array_equal(fx, fy):
                return None
            scale = max(np.max(np.abs(fx)), np.max(np.abs(fy)))
            err = np.max(np.abs(fx - fy))
        if not err <= rtol * scale:
            return f"max difference {err:.3g} at scale {scale:.3g}"
        return None
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        return f"{_s(x)} vs {_s(y)}"
    return None if x == y else f"{x!r} vs {y!r}"


def _s(x):
    if x is None:
        return "None"
    if isinstance(x, np.ndarray):
        return f"array{x.shape}"
    return repr(x)


def feed(ctx, obs, only=None):
    """Feed an observation into the run's event log."""
    for k in obs:
        if only is None or any(s in k for s in only):
            v = obs[k]
            ctx.event(k, v)
