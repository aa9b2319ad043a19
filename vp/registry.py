from regbase import *  # noqa
from regbase import units, PROPS, TRUSTED  # noqa
import reg_storage  # noqa
import reg_ds, reg_cat, reg_sql  # noqa
