#!/bin/sh
# builds the AST exporter
cd "$(dirname "$0")" || exit 2
exec python3-vt -c 'from cppv import program; program.build_exporter()'
