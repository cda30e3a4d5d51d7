from django.db.backends.mysql import base
from django.db.backends.mysql.features import DatabaseFeatures as F
from symdb.backends.common import SymMixin


class DatabaseFeatures(F):
    _mysql_storage_engine = 'InnoDB'
    can_introspect_foreign_keys = True
    supports_microsecond_precision = True
    has_zoneinfo_database = False
    is_sql_auto_is_null_enabled = False


class DatabaseWrapper(SymMixin, base.DatabaseWrapper):
    features_class = DatabaseFeatures
    mysql_version = (10, 11, 0)

    def disable_constraint_checking(self):
        return True

    def enable_constraint_checking(self):
        pass
