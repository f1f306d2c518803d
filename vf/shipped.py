"""The example boards the solvers ship with (large, unique answer)."""
from . import env


def params(mod, config=None):
    """Option values as the front end sends them: numbers as text, check boxes as bool."""
    out = {}
    for k, v in getattr(mod, "parameters", {}).items():
        val = (config or {}).get(k, v["default"])
        if isinstance(val, dict):
            val = sorted(val)[-1]
        out[k] = val if isinstance(val, bool) else str(val)
    return out


def solvers():
    return dict(env.load().modules)


def examples():
    """[(name, index, link, options, {..example..})] of the examples given as board links."""
    out = []
    for name, mod in sorted(solvers().items()):
        for i, ex in enumerate(mod.examples):
            if str(ex.get("data", "")).startswith("m=edit&p="):
                out.append((name, i, ex["data"], params(mod, ex.get("config")), ex))
    return out
