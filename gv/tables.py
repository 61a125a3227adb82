"""every deterministic function and every parameterless-input module of the library, with arguments"""
import torch
import torch.nn as nn

from gconv.geometry import interpolation, o2, o3, repulsion, so2, so3
from gconv.geometry.groups import s2


def FUNCTIONS(r, dt):
    n, m, S = r.randint(1, 6), r.randint(2, 6), r.randint(1, 3)
    R, Q, E = so3.random_matrix(n).to(dt), so3.random_quat(n).to(dt), so3.random_euler(n).to(dt)
    if r.random() < 0.3:  # half turns and gimbal lock
        R = R.clone()
        R[0] = torch.diag(torch.tensor(r.choice([[1.0, -1, -1], [-1, -1, 1], [1, 1, 1], [-1, 1, -1]]), dtype=dt))
        Q = so3.matrix_to_quat(R)
    A, B = (so2.random_grid(k).to(dt) for k in (n, m))
    h2, g2, h3, g3 = o2.random_grid(n).to(dt), o2.uniform_grid((m, m)).to(dt), o3.random_grid(n).to(dt), o3.uniform_grid((m, m)).to(dt)
    P2, P3 = torch.randn(3, 3, 2, dtype=dt), torch.randn(2, 2, 2, 3, dtype=dt)
    gq, gm = so3.uniform_grid(m, "quat").to(dt), so3.uniform_grid(m, "matrix").to(dt)
    sig, sig2 = torch.randn(m, S, dtype=dt), torch.randn(2 * m, S, dtype=dt)
    mode = r.choice(["rbf", "nearest"])
    width = r.uniform(0.3, 1.0)
    X = torch.nn.functional.normalize(torch.randn(n, 3, dtype=dt), dim=-1)
    tri, ts = torch.eye(3, dtype=dt)[None], torch.randn(1, 3, S, dtype=dt)
    return {
        "so2.angle_to_matrix": (so2.angle_to_matrix, A), "so2.angle_to_euclid": (so2.angle_to_euclid, A),
        "so2.inverse_angle": (so2.inverse_angle, A), "so2.left_apply_angle": (so2.left_apply_angle, A, A),
        "so2.inverse_matrix": (so2.inverse_matrix, so2.angle_to_matrix(A)),
        "so2.left_apply_to_angle": (so2.left_apply_to_angle, A, B), "so2.left_apply_angle_to_R2": (so2.left_apply_angle_to_R2, A, P2),
        "so2.left_apply_matrix_to_R2": (so2.left_apply_matrix_to_R2, so2.angle_to_matrix(A), P2),
        "so2.geodesic_distance": (so2.geodesic_distance, A[:, None], B),
        "so2.geodesic_distance_euclid": (so2.geodesic_distance_euclid, so2.angle_to_euclid(A), so2.angle_to_euclid(A.flip(0))),
        "so2.nearest_neighbour_distance": (so2.nearest_neighbour_distance, B),
        "so2.grid_sample": (lambda a, s, g: so2.grid_sample(a, s, g, mode=mode, width=width), A, sig, so2.uniform_grid(m).to(dt)),
        "so3.matrix_xyz": (r.choice([so3.matrix_x, so3.matrix_y, so3.matrix_z]), A),
        "so3.quat_inverse": (so3.quat_inverse, Q), "so3.matrix_inverse": (so3.matrix_inverse, R),
        "so3.left_apply_quat": (so3.left_apply_quat, Q, Q.flip(0)), "so3.euler_to_quat": (so3.euler_to_quat, E),
        "so3.euler_to_matrix": (so3.euler_to_matrix, E), "so3.matrix_to_quat": (so3.matrix_to_quat, R),
        "so3.matrix_to_euler": (so3.matrix_to_euler, R), "so3.quat_to_matrix": (so3.quat_to_matrix, Q),
        "so3.quat_to_euler": (so3.quat_to_euler, Q), "so3.left_apply_to_R3": (so3.left_apply_to_R3, R, P3),
        "so3.left_apply_matrix": (so3.left_apply_matrix, R, R.flip(0)), "so3.left_apply_to_matrix": (so3.left_apply_to_matrix, R, gm),
        "so3.so3_log": (so3.so3_log, R), "so3.quaternion_log": (so3.quaternion_log, Q),
        "so3.geodesic_distance": (so3.geodesic_distance, Q[:, None], gq),
        "so3.nearest_neighbour_distance": (so3.nearest_neighbour_distance, gq),
        "so3.grid_sample": (lambda a, s, g: so3.grid_sample(a, s, g, mode=mode, width=width), *r.choice([(Q, sig, gq), (R, sig, gm)])),
        "o2.inverse": (o2.inverse, h2), "o2.det": (o2.det, h2), "o2.left_apply_angle": (o2.left_apply_angle, h2, h2.flip(0)),
        "o2.left_apply_to_angle": (o2.left_apply_to_angle, h2, g2), "o2.left_apply_to_R2": (o2.left_apply_to_R2, h2, P2),
        "o2.grid_sample": (lambda a, s, g: o2.grid_sample(a, s, g, (m, m), mode=mode), h2, sig2, g2),
        "o2.grid_sample:one-coset": (lambda a, s, g: o2.grid_sample(a, s, g, (m, 0), mode=mode), h2, sig, g2[:m]),
        "o3.left_apply_O3": (o3.left_apply_O3, h3, h3.flip(0)), "o3.left_apply_to_O3": (o3.left_apply_to_O3, h3, g3),
        "o3.left_apply_to_R3": (o3.left_apply_to_R3, h3, P3), "o3.det": (o3.det, h3), "o3.inverse": (o3.inverse, h3),
        "o3.grid_sample": (lambda a, s, g: o3.grid_sample(a, s, g, (m, m), mode=mode), h3, sig2, g3),
        "o3.grid_sample:one-coset": (lambda a, s, g: o3.grid_sample(a, s, g, (0, m), mode=mode), h3, sig, g3[m:]),
        "s2.spherical_to_euclid": (s2.spherical_to_euclid, E[:, 1:]), "s2.euclid_to_spherical": (s2.euclid_to_spherical, X),
        "s2.geodesic_distance_s2": (s2.geodesic_distance_s2, X[:, None], X), "s2.spherical_to_euler": (s2.spherical_to_euler, E[:, 1:]),
        "s2.spherical_to_euler_neg_gamma": (s2.spherical_to_euler_neg_gamma, E[:, 1:]),
        "interpolation.BCC": (lambda a, g, s: interpolation.interpolate_BCC(a, g, s, dist_fn=s2.geodesic_distance_s2), X.abs()[None], tri, ts),
        "repulsion.repulse": (lambda g: repulsion.repulse(g, steps=3, step_size=0.1, metric_fn=so3.geodesic_distance,
                                                          transform_fn=so3.euler_to_quat, show_pbar=False), so3.random_euler(m).to(dt)),
    }


def MODULES(r, n, C):
    k = r.randint(1, 2)
    t = {f"{a}SpatialPool{n}d": ((k,), {}) for a in ("GMax", "GAvg")}
    t.update({f"{a}SpatialPool{n}d": ((k,), {}) for a in ("GAdaptiveMax", "GAdaptiveAvg")})
    t.update({a: ((), {}) for a in ("GMaxGroupPool", "GMaxGlobalPool", "GAvgGroupPool", "GAvgGlobalPool", "GReLU", "GGELU", "GLeakyReLU")})
    t[f"GBatchNorm{n}d"] = ((C,), {})
    t[f"GInstanceNorm{n}d"] = ((C,), dict(affine=r.random() < 0.5, track_running_stats=r.random() < 0.5))
    t["GLayerNorm"] = ((4,), {})
    t["GWrap"] = ((nn.Tanh(),), {})
    return t
