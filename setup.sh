#!/bin/bash
# nothing to build: the checks are Python and run under python3-vt; this only makes sure that they load
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 python3-vt -c "import z3, pyvc.props; print('ok')"
