#!/bin/bash
# builds the extractor, the precompiled headers and the first set of facts
cd "$(dirname "$0")" && export LC_ALL=C.UTF-8 && exec python3 lib/extract.py
