"""C02: sort --unique keeps exactly the first line of every class of equal lines."""
import c01
from c01 import gen_case, judge  # noqa: F401  (same oracle, unique mode)

ID = "C02"
QUICK, THOROUGH = 9000, 200000
RULE = ("as C01 with --unique and duplicated rows; the complete output is compared with the model: stable sort, then the "
        "first of every run of key-equal lines; non-trivial = at least two lines; distinct as in C01")
ASSUMPTIONS = c01.ASSUMPTIONS


def gen(rng, idx, tier):
    return gen_case(rng, tier, unique=True)
