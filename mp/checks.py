from . import checks_parsers as P
from . import checks_values as V
from . import checks_string as S
from . import checks_grammar as GR
from . import checks_interface as I
from . import checks_meta as X
from . import checks_config as F
from . import checks_recursion as R
from . import checks_tools as T
from . import checks_mpvalue as MV
from . import checks_guide as GU

CHECKS = {
    "C01": P.c01, "C02": V.c02, "C03": P.c03, "C04": P.c04, "C05": P.c05,
    "C06": P.c06, "C07": P.c07, "C08": V.c08, "C09": V.c09,
    "C10": S.c10, "C11": S.c11, "C12": GR.c12,
    "C13": I.c13, "C14": X.c14, "C15": F.c15, "C16": X.c16,
    "C17": R.c17, "C18": T.c18, "C19": MV.c19,
    "C20": GU.c20,
}
