#!/bin/bash
# Builds the fact extractor and warms the dependency build (checks do it themselves when absent).
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec python3 -c "
import sys; sys.path.insert(0,'engine')
import facts; print(facts.obtain())"
