PROPS = {}

BASE_ASSUME = [
    "std, chrono, num-complex, statrs, nalgebra and rand items behave as their documentation says (transfer functions in sa/models.py; anything unlisted is an uninterpreted function)",
    "floating-point arithmetic is treated as real arithmetic (re-association and rounding are not distinguished)",
]


def prop(pid, rule, explanation, level="other", floor=1, assumptions=()):
    def d(f):
        PROPS[pid] = {"run": f, "level": level, "rule": rule, "explanation": explanation, "floor": floor, "assumptions": list(BASE_ASSUME) + list(assumptions)}
        return f
    return d
