#!/bin/bash
# exit 0 if the property holds in the tree in the current directory
exec /opt/venv/bin/python -B -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
