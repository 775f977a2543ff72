#!/bin/bash
# Builds the fact extractor and warms the fact cache for the current tree.
cd "$(dirname "$0")" && exec python3 -B sa/facts.py
