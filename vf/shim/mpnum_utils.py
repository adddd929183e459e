"""Names of the package under verification for use inside clauses."""
from mpnum.utils import *          # noqa
from mpnum.utils.array_transforms import global_to_local, local_to_global  # noqa
from mpnum.utils.extmath import *  # noqa
