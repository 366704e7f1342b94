"""Reference interpretation of detector error models (own flattening, own graph)."""
import math

import stim


def flatten(model):
    """([(p, [(dets, obs), ...components])], {det: coords}, num_dets, num_obs) with absolute indices."""
    errs, coords = [], {}
    state = {"d": 0, "c": []}

    def walk(m):
        for ins in m:
            if isinstance(ins, stim.DemRepeatBlock):
                body = ins.body_copy()
                for _ in range(ins.repeat_count):
                    walk(body)
                continue
            t = ins.type
            args = ins.args_copy()
            tg = ins.targets_copy()
            if t == "error":
                comps, cur = [], ([], [])
                for x in tg:
                    if x.is_separator():
                        comps.append(cur)
                        cur = ([], [])
                    elif x.is_relative_detector_id():
                        cur[0].append(x.val + state["d"])
                    else:
                        cur[1].append(x.val)
                comps.append(cur)
                errs.append((args[0], comps))
            elif t == "shift_detectors":
                state["d"] += int(tg[0])
                c = state["c"]
                while len(c) < len(args):
                    c.append(0.0)
                for i, a in enumerate(args):
                    c[i] += a
            elif t == "detector":
                for x in tg:
                    base = state["c"]
                    coords[x.val + state["d"]] = [a + (base[i] if i < len(base) else 0) for i, a in enumerate(args)]
    walk(model)
    return errs, coords, model.num_detectors, model.num_observables


class NotGraphLike(Exception):
    pass


def edges(model):
    """{(a, b) or (a, 'B'): (p, frozenset obs)} with first-wins on conflicts."""
    errs, coords, nd, no = flatten(model)
    g = {}
    for p, comps in errs:
        if p == 0:
            continue
        for dets, obs in comps:
            if not dets:
                continue
            if len(dets) > 2:
                raise NotGraphLike(str(dets))
            key = tuple(sorted(dets)) if len(dets) == 2 else (dets[0], "B")
            obs = frozenset(obs)
            if key in g:
                q, o = g[key]
                if o == obs:
                    g[key] = (p * (1 - q) + q * (1 - p), o)
            else:
                g[key] = (p, obs)
    return g, coords, nd, no


def weight(p):
    return math.log((1 - p) / p)
