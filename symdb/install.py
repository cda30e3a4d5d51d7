"""How the triggers get into the database: the library installs them, or the SQL it prints is run."""
import contextlib
import io
import os
import sqlite3

PRINTED = os.environ.get('SCN_INSTALL') == 'printed'


def printed():
    """what denorm_sql prints"""
    from django.core.management import call_command
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        call_command('denorm_sql')
    return text.getvalue()


def whole_statements(sql):
    """like the shell of SQLite, line by line"""
    part = ''
    for line in sql.splitlines(True):
        part += line
        if sqlite3.complete_statement(part):
            yield part
            part = ''
    if part.strip():
        yield part


def run_script(sql):
    """hand a text to the database the way a client does, nothing in it is a placeholder"""
    from django.db import connection
    with connection.cursor() as cursor:
        for part in whole_statements(sql) if connection.vendor == 'sqlite' else [sql]:
            cursor.execute(part)
            while connection.vendor == 'mysql' and cursor.nextset():
                pass


def install():
    from denorm import denorms
    if PRINTED:
        run_script(printed())
    else:
        denorms.install_triggers()
