#!/bin/bash
# nothing to compile: check that the interpreter, the solver and the database servers are there
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
/opt/venv/bin/python -c '
import sys
sys.path.insert(0, ".")
from symdb import terms, servers
import django, psycopg2, MySQLdb
print("z3", terms.z3.get_version_string(), "django", django.get_version())
'
