#!/bin/bash
# nothing to build: the verifier is Python and runs from the committed files; check the tools
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, ".")
from jv import env
env.setup()
import z3, cvc5, sympy, gmpy2, jax
print("z3", z3.get_version_string(), "cvc5", cvc5.__version__, "jax", jax.__version__)
P
