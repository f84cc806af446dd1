"""property id -> scenario generator and what evidence says about it"""
import importlib

LEVEL = "model_checking"
REALS = "tensor entries are real numbers: floating-point rounding is outside the encoding (counterexamples are replayed in float32/float64)"
KERNELS = "each torch operator computes its documented mathematical function (validated at one concrete point per path against the real kernel)"
SIZES = "sizes, batch sizes, layer settings and stack shapes are those of the listed scenarios"

WHERE = {
    "layers_props": ["C01", "C02", "C03", "C04", "C05", "C06", "C10", "C13"],
    "stacks": ["C07", "C08", "C09", "C11", "C12", "C22", "C23"],
    "misc": ["C16", "C17", "C18", "C19", "C20", "C21", "C24"],
    "likelihoods": ["C14", "C15"],
}


def scenarios(prop):
    for mod, props in WHERE.items():
        if prop in props:
            m = importlib.import_module("checks." + mod)
            fn = getattr(m, prop.lower())
            return fn, {
                "level": LEVEL,
                "bounds": getattr(m, "BOUNDS", {}).get(prop, "the listed layer settings, batch 1-3, feature sizes up to 6, images up to 4x4; all real values of every input, weight, vector and matrix entry"),
                "assumptions": [REALS, KERNELS, SIZES] + getattr(m, "ASSUME", {}).get(prop, []),
            }
    raise KeyError(prop)
