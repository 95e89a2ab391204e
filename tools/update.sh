#!/bin/bash
# Regenerate the derived committed files.
cd "$(dirname "$0")/.." && python3 tools/mkprops.py && python3 tools/mkmanifest.py && python3 tools/mkfixed.py && python3 tools/mkdesign.py
