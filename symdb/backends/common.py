from symdb import engine


class SymMixin(object):
    def get_connection_params(self):
        return {}

    def get_new_connection(self, conn_params):
        return engine.Connection(self)

    def init_connection_state(self):
        pass

    def create_cursor(self, name=None):
        return engine.Cursor(self.connection)

    def _set_autocommit(self, autocommit):
        if autocommit and self.connection.in_txn:
            self.connection.commit()
        self.connection.autocommit = autocommit

    def is_usable(self):
        return True

    def close_if_unusable_or_obsolete(self):
        pass

    def ensure_timezone(self):
        return False

    def check_constraints(self, table_names=None):
        pass

    def _close(self):
        if self.connection is not None:
            self.connection.close()
