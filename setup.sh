#!/bin/bash
# Checks that the checker builds from the committed files; every check rebuilds it anyway.
exec "$(cd "$(dirname "$0")" && pwd)/check.sh" build
