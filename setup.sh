#!/bin/bash
# builds the framework from the committed files
cd "$(dirname "$0")" && exec bash check.sh build
