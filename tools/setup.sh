#!/bin/sh
# Nothing to install: every check builds what it needs. Verify the compiler is there.
g++ --version >/dev/null && python3 -c "import json"
