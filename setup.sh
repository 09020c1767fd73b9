#!/bin/bash
# nothing to build: the checks are Python and import /repo's working tree directly; verify that they can
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 XDG_DATA_HOME="$(mktemp -d)"
trap 'rm -rf "$XDG_DATA_HOME"' EXIT
/opt/venv/bin/python -c "import mc.core, packaging, pkm.api.versions.version as v; assert v.__file__.startswith('/repo/'), v.__file__"
