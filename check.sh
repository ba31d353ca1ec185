#!/bin/sh
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B lib/vk.py "$@"
