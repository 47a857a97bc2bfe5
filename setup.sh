#!/bin/bash
# builds the driver and the dump of the current tree (the checks rebuild whatever changed)
cd "$(dirname "$0")" && python3 lib/build.py
