from django.db.backends.postgresql import base
from symdb.backends.common import SymMixin


class DatabaseWrapper(SymMixin, base.DatabaseWrapper):
    pg_version = 160000

    def chunked_cursor(self):
        return self.cursor()
