from vf.base import CHECKS, NOT_APPLICABLE  # noqa
from vf import props_c  # noqa
from vf import props_s  # noqa
from vf import props_d  # noqa
from vf import props_n  # noqa
from vf import props_g  # noqa
