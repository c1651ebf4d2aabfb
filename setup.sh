#!/bin/bash
# Builds the checker once so that the build cache is warm; every check rebuilds from /repo anyway.
cd "$(dirname "$0")" && exec bash run.sh list warm
