"""The check of each property."""
CHECKS = {}


def check(*ids):
    def deco(f):
        for i in ids:
            CHECKS[i] = f
        return f
    return deco


import fam_heap  # noqa
import fam_containers  # noqa
import fam_publisher  # noqa
import fam_static  # noqa
import fam_mediator  # noqa
import fam_lru  # noqa
import fam_pipeline  # noqa
import fam_threads  # noqa
import fam_interval  # noqa
import fam_argv  # noqa
import fam_data  # noqa
import fam_packet  # noqa
import fam_holder  # noqa
