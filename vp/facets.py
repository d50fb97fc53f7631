from vp import f_boot, f_calc, f_data, f_fit, f_inv, f_mixed, f_probs, f_reject, f_state

FACETS = {}
for _mod in (f_probs, f_inv, f_calc, f_fit, f_data, f_reject, f_mixed, f_boot, f_state):
    for _n in dir(_mod):
        if _n.startswith("p_"):
            FACETS[_n[2:]] = getattr(_mod, _n)
