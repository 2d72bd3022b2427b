#!/bin/bash
# builds the fact extractor, the regex helper and the third-party dependencies (offline); checks rebuild /repo's crates themselves
cd "$(dirname "$0")" && exec python3 engine/setup.py
