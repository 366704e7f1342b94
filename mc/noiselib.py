"""Shared driver of C09 and C10."""
import stim

from mc.core import Violation, check
from mc import refnoise as rn, programs, configs
from mc.circlib import make

MODELS = ["SD6", "PC3", "EM3_v1", "EM3_v2", "SI1000"]
STYLE_MODEL = {"SD6": "SD6", "PC3": "PC3", "EM3": "EM3_v1", "EM3_v2": "EM3_v2", "SI1000": "SI1000"}


def own_qubits(circuit, qs=None):
    return set(range(circuit.num_qubits)) | set(qs or ())


def compare_ideal(ideal_atoms, noisy_atoms, case):
    a = rn.canon(rn.strip(ideal_atoms))
    b = rn.canon(rn.strip(noisy_atoms))
    if a != b:
        raise Violation("adding noise changed the ideal circuit: " + rn.first_difference(a, b), case)


def compare_noise(want_atoms, noisy_atoms, case):
    a = rn.canon(want_atoms)
    b = rn.canon(noisy_atoms)
    if a != b:
        raise Violation("noise differs from the model (expected != got): " + rn.first_difference(a, b), case)


def custom_models():
    """(constructor kwargs, reference) pairs with rules for every reset/measurement basis."""
    out = []
    base = dict(idle=0.01, measure_reset_idle=0.02,
                noisy_gates={"R": 0.1, "RX": 0.11, "RY": 0.12, "M": 0.13, "MX": 0.14, "MY": 0.15, "CX": 0.03, "H": 0.04})
    t = dict(base["noisy_gates"])
    out.append((dict(base), rn.Model(0.01, 0.02, t)))
    t2 = dict(base["noisy_gates"])
    for g in rn.C1:
        t2.setdefault(g, 0.05)
    for g in rn.C2:
        t2.setdefault(g, 0.06)
    out.append((dict(base, any_clifford_1=0.05, any_clifford_2=0.06), rn.Model(0.01, 0.02, t2)))
    t3 = {"R": 0, "M": 0.2, "MX": 0, "RX": 0.25, "H": 0}
    out.append((dict(idle=0, measure_reset_idle=0.3, noisy_gates=dict(t3)), rn.Model(0, 0.3, dict(t3))))
    t4 = {"R": 0, "M": 0, "MPP": 0.1, "H": 0.2}
    out.append((dict(idle=0.1, measure_reset_idle=0, noisy_gates=dict(t4)), rn.Model(0.1, 0, dict(t4))))
    return out


CUSTOM_STEPS = ["RX 0", "RY 0", "R 0", "MX 0", "MY 0", "M 0", "RX 1\nMX 0", "RY 2\nM 1\nH 0", "MY 0 1 2", "RX 0 2\nTICK\nMY 1",
                "H 0\nTICK\nMX 0\nTICK\nRY 0", "CX 0 1\nMX 2", "CZ 0 1", "I 0\nRX 1", "S 0", "MR 0", "X 0", "MXX 0 1",
                "REPEAT 2 {\nRX 0\nTICK\nMX 0\nTICK\n}", "R 1\nTICK\nH 0", "MPP X0*X1", "M 0\nTICK\nRX 1\nTICK\nMY 2",
                "M !0", "MX !0 1", "MY 0 !2\nRX 1", "MX !1\nTICK\nMX 1", "REPEAT 3 {\nMY !0\nTICK\nMX 1 !2\n}",
                "RX 0 1 2\nTICK\nMX 0 1 2", "RY 0 1\nTICK\nREPEAT 2 {\nMY 0\nTICK\nMX !1\nRX 2\nTICK\n}\nM 0 1 2", "R 0\nRX 1\nRY 2", "M 0\nMX 1\nMY 2"]
REFUSED = ["S 0", "X 0", "SQRT_X 1", "SWAP 0 1", "MR 0", "MX 0", "RX 0", "MY 1", "RY 1", "MXX 0 1", "ISWAP 0 1", "MPP X0", "MPP X0*X1*X2",
           "X_ERROR(0.1) 0", "DEPOLARIZE1(0.1) 0", "Z 0", "C_NXYZ 0", "H_XY 0", "MRX 0", "MZZ 0 1", "Y 2", "S_DAG 0",
           "DEPOLARIZE2(0.1) 0 1", "E(0.1) X0", "MPAD 0", "SQRT_XX 0 1"]


def items(tier):
    th = tier == "thorough"
    out = [["prog", ch] for ch in programs.space(tier)]
    out.append(["custom"])
    out.append(["refused"])
    out.append(["qs"])
    lay = []
    for style in configs.STYLES:
        for obs in "HV":
            for n in range(1, (40 if th else 24) + 1):
                if configs.ok(style, n):
                    lay.append(configs.cfg(2, 6, n, style, obs, 0.001))
            for w in range(2, (12 if th else 8) + 1, 2):
                for h in (6, 12, 18) if th else (6, 12):
                    for n in (1, 2, 3, 6, 9, 15):
                        if configs.ok(style, n) and (th or w * h * n <= 900):
                            lay.append(configs.cfg(w, h, n, style, obs, 0.002))
            for p in (0, 1e-6, 1e-4, 0.01, 0.03, 0.1, 0.15, 0.2) + (() if style == "SI1000" else (0.5, 0.75)):
                lay.append(configs.cfg(4, 6, 3, style, obs, p))
            for n in (300, 1003, 1005):
                if configs.ok(style, n):
                    lay.append(configs.cfg(2, 6, n, style, obs, 0.001))
            if th:
                for u in (1, 2, 3):
                    lay.append(configs.cfg(4 * u, 6 * u, 36 * u, style, obs, 0.001))
            else:
                lay.append(configs.cfg(4, 6, 36, style, obs, 0.001))
    out += [["lay", ch] for ch in configs.chunks(lay, budget=6000)]
    for name in ("sd6", "si1000"):
        for b in "XZ":
            for d in (3, 7, 11, 15, 19) if th else (3, 7):
                out.append(["surface", name, b, d])
    return out


def program_cases(ch):
    for text in programs.texts(ch):
        yield text


def run(item, judge):
    """judge(model_or_None, ref_model, ideal circuit, qs, ideal atoms, call) -> outcome tag."""
    from noise import NoiseModel
    st = tr = ev = ref = noisy = 0
    sample = None

    def one(make_model, refm, circuit, qs, case):
        nonlocal st, ev, ref, noisy
        r = judge(make_model, refm, circuit, qs, case)
        ev += 1
        if r == "refused":
            ref += 1
        else:
            st += r
            noisy += 1

    if item[0] == "prog":
        for text in programs.texts(item[1]):
            c = stim.Circuit(text)
            for name in MODELS:
                for p in (0.004, 0):
                    one(lambda: getattr(NoiseModel, name)(p), rn.model(name, p), c, None, {"model": name, "p": p, "circuit": text})
            sample = {"circuit": text}
    elif item[0] == "custom":
        for kw, refm in custom_models():
            for text in CUSTOM_STEPS:
                one(lambda: NoiseModel(**{k: dict(v) if isinstance(v, dict) else v for k, v in kw.items()}), refm,
                    stim.Circuit(text), None, {"model": str(kw), "circuit": text})
    elif item[0] == "refused":
        for name in MODELS:
            for p in (0.01, 0):
                for text in REFUSED:
                    for wrap in ("%s", "H 0\nTICK\n%s", "REPEAT 2 {\nM 0\nTICK\n%s\n}"):
                        t = wrap % text
                        one(lambda: getattr(NoiseModel, name)(p), rn.model(name, p), stim.Circuit(t), None,
                            {"model": name, "p": p, "circuit": t})
    elif item[0] == "qs":
        import itertools
        for text in ("H 0\nTICK\nM 1", "R 0 1\nTICK\nREPEAT 2 {\nH 0\nTICK\nM 1\nTICK\n}", "MPP X0*X1\nTICK\nM 0", "",
                     "REPEAT 2 {\nMPP X0*X1\nTICK\n}", "R 0\nTICK\nTICK\nM 0"):
            for k in range(0, 5):
                for extra in itertools.combinations(range(5), k):
                    for name in MODELS:
                        qs = {0, 1} | set(extra)
                        one(lambda: getattr(NoiseModel, name)(0.01), rn.model(name, 0.01), stim.Circuit(text), qs,
                            {"model": name, "circuit": text, "qs": sorted(qs)})
    elif item[0] == "lay":
        for c in item[1]:
            ideal = make(c[:5] + [0])
            got = make(c)
            r = judge(None, rn.model(STYLE_MODEL[c[3]], c[5]), ideal, None, {"config": c}, got=got)
            st += r
            ev += 1
            noisy += 1
            sample = {"config": c, "atoms": r}
    elif item[0] == "surface":
        from mc.core import REPO
        _, name, b, d = item
        path = REPO / "src/paper/surface_code_circuits" / f"{name}_{b}" / f"d{d}_p0.0.stim"
        ideal = stim.Circuit(path.read_text())
        m = name.upper()
        for p in (0.001, 0.03, 0):
            one(lambda: getattr(NoiseModel, m)(p), rn.model(m, p), ideal, None, {"surface": item[1:], "p": p})
    return dict(states=st, transitions=noisy, evaluations=ev, distinct_nontrivial=noisy, refused=ref,
                traces_validated_against_impl=ev, sample=sample)
