"""The family of model specifications the checks range over."""


def _custom():
    from skillmodels.decorators import register_params

    out = {}

    @register_params(params=["tilt", "level"])
    def keep_first(a, params):
        return params["tilt"] * a + params["level"]

    out["c_a"] = keep_first

    @register_params(params=["p2", "p1", "shift"])
    def prod_ab(b, params, a):
        return params["p1"] * a + params["p2"] * b * b + params["shift"]

    out["c_ab"] = prod_ab

    @register_params(params=["w", "x"])
    def states_only(states, params):
        return params["w"] * states[0] + params["x"] * states[-1] * states[-1]

    out["c_states"] = states_only

    @register_params(params=[])
    def no_params(b, a, params):
        return a - b

    out["c_none"] = no_params

    @register_params(params=["g"])
    def with_obs(a, obs1, params):
        return params["g"] * a * obs1

    out["c_obs"] = with_obs

    @register_params(params=["up", "down"])
    def both_obs(obs1, b, params, obs3):
        return params["up"] * obs3 + params["down"] * b * obs1

    out["c_both"] = both_obs
    return out


CUSTOM_PARAMS = {
    "c_a": ["tilt", "level"],
    "c_ab": ["p2", "p1", "shift"],
    "c_states": ["w", "x"],
    "c_none": [],
    "c_obs": ["g"],
    "c_both": ["up", "down"],
}


def spec(factors, observed=(), controls=(), stagemap=None, anchoring=None, n_mixtures=None,
         options=None):
    """factors: list of [name, transition, measurements-per-period, normalizations or None]."""
    md = {"factors": {}}
    custom = None
    for name, trans, meas, *rest in factors:
        d = {"measurements": [list(m) for m in meas]}
        if isinstance(trans, str) and trans.startswith("c_"):
            custom = custom or _custom()
            d["transition_function"] = custom[trans]
        else:
            d["transition_function"] = trans
        if rest and rest[0]:
            d["normalizations"] = {k: [dict(x) for x in v] for k, v in rest[0].items()}
        md["factors"][name] = d
    if observed:
        md["observed_factors"] = list(observed)
    if controls:
        md["controls"] = list(controls)
    if stagemap is not None:
        md["stagemap"] = list(stagemap)
    if anchoring is not None:
        md["anchoring"] = {
            k: (dict(v) if isinstance(v, dict) else v) for k, v in anchoring.items()}
    opts = {} if options is None else dict(options)
    if n_mixtures is not None:
        opts["n_mixtures"] = n_mixtures
    md["estimation_options"] = opts
    return md


NOCLIP = {"clipping_lower_bound": None, "clipping_upper_bound": None}


def _m(prefix, *counts):
    """measurement names: k-th period gets counts[k] measurements, named per factor."""
    return [[f"{prefix}{i + 1}" for i in range(c)] for c in counts]


def MODELS():
    M = {}
    M["one"] = spec([["a", "linear", _m("ya", 1, 1)]])
    M["one3"] = spec([["a", "translog", _m("ya", 2, 1, 1)]], controls=["x1"])
    M["two"] = spec([["a", "linear", _m("ya", 1, 1)], ["b", "linear", _m("yb", 1, 1)]],
                    controls=["x1"])
    M["two_late"] = spec(
        [["b", "linear", _m("yb", 2)], ["a", "translog", _m("ya", 1, 1, 1)]],
        stagemap=[0, 0])
    M["shared"] = spec(
        [["a", "linear", [["y1", "y2"], ["y1"]]], ["b", "constant", [["y2", "y3"], ["y3"]]]],
        controls=["x1"])
    M["obs"] = spec(
        [["a", "linear", _m("ya", 1, 1)], ["b", "translog", _m("yb", 1, 1)]],
        observed=["obs1"], controls=["x1"])
    M["obs2"] = spec(
        [["a", "log_ces_general", _m("ya", 1, 1, 1)]], observed=["obs2", "obs1"],
        stagemap=[0, 1])
    M["mix"] = spec([["a", "linear", _m("ya", 1, 1)]], n_mixtures=2)
    M["mix2"] = spec([["a", "linear", _m("ya", 1, 1)], ["b", "constant", _m("yb", 1)]],
                     n_mixtures=2, controls=["x1"])
    M["mix3"] = spec([["a", "constant", _m("ya", 1, 1)]], n_mixtures=3)
    M["mixobs"] = spec([["a", "linear", _m("ya", 1, 1)]], observed=["obs1"], n_mixtures=2)
    M["anch"] = spec(
        [["a", "linear", _m("ya", 1, 1)], ["b", "linear", _m("yb", 1, 1)]],
        anchoring={"outcomes": {"a": "Q"}, "free_loadings": True, "free_constant": True})
    M["anch_second"] = spec(
        [["a", "constant", _m("ya", 1, 1)], ["b", "translog", _m("yb", 1, 1)]],
        controls=["x1"],
        anchoring={"outcomes": {"b": "Q"}, "free_loadings": True, "free_constant": True,
                   "free_controls": True})
    M["anch_both"] = spec(
        [["a", "linear", _m("ya", 1, 1)], ["b", "linear", _m("yb", 1, 1)]],
        anchoring={"outcomes": {"a": "Q", "b": "Q"}, "free_loadings": True,
                   "free_constant": True})
    M["anch_swapped"] = spec(
        [["a", "linear", _m("ya", 1, 1)], ["b", "linear", _m("yb", 1, 1)]],
        anchoring={"outcomes": {"b": "Q", "a": "R"}, "free_loadings": True,
                   "free_constant": True})
    M["anch_noconst"] = spec(
        [["a", "linear", _m("ya", 1, 1)], ["b", "linear", _m("yb", 1, 1)]],
        observed=["obs1"],
        anchoring={"outcomes": {"b": "R", "a": "Q"}, "free_loadings": True,
                   "free_constant": True, "ignore_constant_when_anchoring": True})
    M["anch_off"] = spec(
        [["a", "linear", _m("ya", 1, 1)]], controls=["x1"],
        anchoring={"outcomes": {"a": "Q"}})
    M["three"] = spec(
        [["a", "log_ces", _m("ya", 2, 1, 1)], ["b", "linear", _m("yb", 1, 1, 1)],
         ["c", "constant", _m("yc", 2)]],
        controls=["x2", "x1"], stagemap=[0, 0],
        anchoring={"outcomes": {"c": "R", "a": "Q"}, "free_loadings": True,
                   "free_constant": True})
    M["three_norm"] = spec(
        [["c", "linear_and_squares", _m("yc", 1, 1, 1, 1),
          {"loadings": [{"yc1": 1}, {"yc1": 2}], "intercepts": [{"yc1": 0.5}]}],
         ["a", "robust_translog", _m("ya", 2, 2, 1, 2),
          {"loadings": [{"ya2": 1}, {}, {"ya1": 3}]}],
         ["b", "linear", _m("yb", 1, 0, 1, 1), {"intercepts": [{}, {}, {"yb1": -1}]}]],
        controls=["x1"], stagemap=[0, 1, 1], n_mixtures=2)
    M["custom"] = spec(
        [["a", "c_ab", _m("ya", 1, 1)], ["b", "linear", _m("yb", 1, 1)]])
    M["custom2"] = spec(
        [["b", "c_states", _m("yb", 1, 1)], ["a", "c_obs", _m("ya", 1, 1)]],
        observed=["obs1"])
    M["custom3"] = spec(
        [["b", "c_none", _m("yb", 1, 1, 1)], ["a", "c_a", _m("ya", 1, 1, 1)],
         ["c", "constant", _m("yc", 1)]], stagemap=[0, 1])
    M["custom4"] = spec(
        [["b", "c_obs", _m("yb", 1, 1)], ["c", "linear", _m("yc", 1, 1)],
         ["a", "c_both", _m("ya", 1, 1)]],
        observed=["obs3", "obs1", "obs2"])
    M["odd_names"] = spec(
        [["x-y", "linear", [["m-1"], ["m-1"]]], ["x", "translog", [["m 2"], ["m 2"]]]],
        controls=["c-1"])
    M["quote"] = spec(
        [["it's", "linear", [["q1"], ["q1"]]], ["b b", "linear", [["q2"], ["q2"]]]])
    M["same_meas"] = spec(
        [["a", "linear", [["y1", "y2"], ["y1", "y2"], ["y1", "y2"]]],
         ["b", "log_ces", [["y2"], ["y1"], ["y3"]]]], stagemap=[0, 0])
    M["anch_late"] = spec(
        [["c", "constant", _m("yc", 1)], ["a", "linear", _m("ya", 1, 1, 1)],
         ["b", "translog", _m("yb", 1, 1, 1)]],
        controls=["x1"], observed=["obs1"], stagemap=[0, 0],
        anchoring={"outcomes": {"b": "Q", "c": "Q"}, "free_loadings": True,
                   "free_controls": True})
    M["anch_mix"] = spec(
        [["a", "linear", _m("ya", 1, 1)], ["b", "constant", _m("yb", 1)]], n_mixtures=2,
        anchoring={"outcomes": {"b": "Q"}, "free_constant": True})
    M["all_const"] = spec(
        [["a", "constant", _m("ya", 1, 1, 1)], ["b", "constant", _m("yb", 1, 1, 1)]],
        stagemap=[0, 0])
    M["stages4"] = spec(
        [["a", "linear", _m("ya", 1, 1, 1, 1, 1)], ["b", "log_ces", _m("yb", 1, 1, 1)]],
        stagemap=[0, 0, 1, 1], observed=["obs1"])
    M["ces_mix"] = spec(
        [["a", "log_ces", _m("ya", 1, 1)], ["b", "log_ces_general", _m("yb", 1, 1)]],
        n_mixtures=3)
    M["dashes"] = spec(
        [["x", "linear", _m("y", 1, 1)], ["x-x-x", "linear", _m("z", 1, 1)]])
    M["two_gap"] = spec(
        [["a", "linear", _m("ya", 1, 1, 1)], ["b", "translog", _m("yb", 1, 0, 1)]])
    M["lin_obs"] = spec([["a", "linear", _m("ya", 1, 1)]], observed=["obs1"], controls=["x1"])
    M["shared_lin"] = spec(
        [["a", "linear", [["y1", "y2"], ["y1"]]], ["b", "constant", [["y2"]]]])
    M["one_quad"] = spec([["a", "linear_and_squares", _m("ya", 1, 1)]])
    M["three_lin"] = spec(
        [["a", "linear", _m("ya", 1, 1)], ["b", "constant", _m("yb", 1)],
         ["c", "linear", _m("yc", 1, 1)]], controls=["x1"])
    M["gap"] = spec(
        [["a", "linear", _m("ya", 1, 1, 1)], ["b", "linear", _m("yb", 1, 0, 2)]])
    M["stages6"] = spec(
        [["a", "linear", _m("ya", 1, 1, 1, 1, 1, 1, 1)]], stagemap=[0, 0, 0, 0, 1, 1])
    M["mixed_stages"] = spec(
        [["b", "constant", _m("yb", 1, 1, 1, 1, 1, 1)], ["a", "translog", _m("ya", 1, 1, 1)],
         ["c", "log_ces", _m("yc", 1)]], stagemap=[0, 1, 1, 2, 2], n_mixtures=3)
    M["hole"] = spec([["a", "linear", [["ya1"], [], ["ya1"]]]])
    M["hole_anch"] = spec(
        [["a", "linear", [["ya1"], [], ["ya1"]]], ["b", "constant", [["yb1"]]]],
        anchoring={"outcomes": {"a": "Q"}, "free_loadings": True})
    # sizes with two digits: labels sorted as text differ from labels sorted by number
    M["long12"] = spec(
        [["b", "constant", _m("yb", 1)], ["a", "linear", _m("ya", *[1] * 12)]],
        controls=["x1"])
    M["mix12"] = spec([["a", "linear", _m("ya", 1, 1)]], n_mixtures=12)
    M["wide12"] = spec(
        [[f"f{k}", "constant", [[f"y{k}"]] * 2] for k in (3, 12, 1, 2, 11, 10, 4, 5, 9, 8, 7, 6)],
        controls=["x10", "x9", "x2"])
    M["meas12"] = spec(
        [["a", "linear", [[f"y{k}" for k in range(1, 13)], ["y2", "y11", "y3"]]]],
        controls=["x1"])
    M["odd_const"] = spec(
        [["2nd x", "constant", [["m 1"], ["m 1"]]], ["class", "constant", [["k"], ["k"]]],
         ["x", "linear", [["m"], ["m"]]]], observed=["obs1"])
    # one column of the data in several roles, and names that occur twice
    M["overlap"] = spec(
        [["a", "linear", [["a", "m"], ["m"]]], ["b", "translog", [["y"], ["y"]]]],
        observed=["x1"], controls=["x1"],
        anchoring={"outcomes": {"a": "m"}, "free_loadings": True, "free_constant": True})
    M["single"] = spec(
        [["b", "constant", [["y1", "y2"]]], ["a", "linear", [["y2", "y3"]]]],
        observed=["obs1"], controls=["x1"],
        anchoring={"outcomes": {"a": "Q"}, "free_loadings": True, "free_constant": True})
    M["single_mix"] = spec([["a", "translog", [["ya2", "ya1"]]]], n_mixtures=2)
    M["no_options"] = spec(
        [["a", "translog", _m("ya", 1, 1)]], controls=["x1"])
    del M["no_options"]["estimation_options"]
    M["four"] = spec(
        [["d", "translog", _m("yd", 1, 1, 1)], ["a", "linear", _m("ya", 2, 1, 1)],
         ["c", "log_ces_general", _m("yc", 1, 1, 1)], ["b", "constant", _m("yb", 1)]],
        observed=["obs2", "obs1"], controls=["x3", "x1", "x2"], n_mixtures=4,
        anchoring={"outcomes": {"b": "R", "d": "Q"}, "free_loadings": True,
                   "free_constant": True})
    return M


def model(name):
    return MODELS()[name]
