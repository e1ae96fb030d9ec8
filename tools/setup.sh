#!/bin/bash
# the checks interpret the code in /repo directly; only verify that what they need is there
/opt/venv/bin/python -c "import html5lib, PIL, requests, loguru" && node --version && test -d /opt/veriftools/node/node_modules/acorn
