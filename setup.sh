#!/bin/bash
# Checks that the tools are there and that everything compiles; checks build what they need themselves.
cd "$(dirname "$0")" || exit 1
exec ./check setup
