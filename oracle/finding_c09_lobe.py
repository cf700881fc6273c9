"""known finding: jacobian w.r.t. a symbolic component of `a` of a surface CosineLobe (derivative of |cos|^i).
Exit 1 while it still fails, 0 when the jacobian equals the central difference in both backends."""
import sys
sys.path.insert(0, "/repo/src")
import numpy as np


def main():
    import rt1_model
    from rt1_model import RT1, surface, volume
    bad = []
    for be in ("sympy", "symengine"):
        rt1_model.set_lambda_backend(be)
        R = RT1(V=volume.Isotropic(), SRF=surface.CosineLobe(ncoefs=3, i=3, a=[1, "x", 1.0]), int_Q=False)
        R.set_bistatic()
        R.set_geometry(t_0=.3, t_ex=.4, p_0=0., p_ex=2.)

        def tot(x):
            return np.asarray(R.calc(x=np.array([x]), tau=.3, omega=.3, NormBRDF=.4)[0], float).ravel()[0]
        try:
            num = (tot(.9 + 1e-6) - tot(.9 - 1e-6)) / 2e-6
            tot(.9)
            j = float(np.asarray(R.jacobian(param_list=["x"])[0], float).ravel()[0])
            if not abs(j - num) < 1e-5 * max(1, abs(num)):
                bad.append(f"{be}: {j} != {num}")
        except Exception as e:
            bad.append(f"{be}: {type(e).__name__}: {e}")
    print("; ".join(bad)[:600])
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
