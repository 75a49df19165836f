#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" "$here/demo.py"
